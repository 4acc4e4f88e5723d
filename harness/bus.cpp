/* Conformance driver for the bus adapters (Bus): the platform's half of the I2C and SPI drivers is simulated here. */
#include "vh.h"
#include "BusQueue/I2CAdapter.h"
#include "BusQueue/SPIAdapter.h"
#include <sanitizer/asan_interface.h>

enum { SLOTS = 8 };
static int kind = 0;
static ll hwb = 0, hwa = 0;
static bool purging = false;
static VI ev;
static int level[256];
int8_t setPin(uint8_t p, bool v) { level[p] = v; return 0; }

struct Slot { BusOp* op = nullptr; int own = 0; ll recs = 0; int nxt = 0; bool veto = false; uint8_t* heap = nullptr; };
static Slot slot[SLOTS + 1];
static uint8_t statbuf[SLOTS + 1][8];
static int find(BusOp* o) { for (int i = 1; i <= SLOTS; i++) if (slot[i].op == o) return i; return 0; }

class I2C : public I2CAdapter {
  public:
    I2C(const I2CAdapterOptions* o, uint32_t pa, uint8_t mq) : I2CAdapter(o, pa, mq) {}
    int avail() { return preallocated.available(); } int over() { return preallocated.overdraws(); } int freed() { return preallocated.overdrawsFreed(); }
    int qlen() { return work_queue.size(); } BusOp* at(int i) { return work_queue.get(i); }
    bool asap = false;
    void setup(bool a, bool adv) { asap = a; _pf_dispatch_on_queue(asap); _pf_needs_op_advance(adv); }
};
class SPI : public SPIAdapter {
  public:
    SPI(uint32_t pa, uint8_t mq) : SPIAdapter(2, 1, 2, 3, pa, mq) {}
    int avail() { return preallocated.available(); } int over() { return preallocated.overdraws(); } int freed() { return preallocated.overdrawsFreed(); }
    int qlen() { return work_queue.size(); } BusOp* at(int i) { return work_queue.get(i); }
    void setup(bool guard, bool adv) { _adapter_set_flag(SPI_FLAG_QUEUE_GUARD, guard); _pf_needs_op_advance(adv); }
};
static I2C* i2c = nullptr;
static SPI* spi = nullptr;
static int8_t rinit = 0;

static void done(BusOp* o, XferFault f) {
  if (kind == 1) { if (f == XferFault::NONE) ((I2CBusOp*) o)->markComplete(); else ((I2CBusOp*) o)->abort(f); }
  else           { if (f == XferFault::NONE) ((SPIBusOp*) o)->markComplete(); else ((SPIBusOp*) o)->abort(f); }
}
template <class T> static XferFault start(T* o) {
  ev.push_back(1); ev.push_back(find(o));
  if (o->execCA()) { o->abort(XferFault::IO_RECALL); return XferFault::IO_RECALL; }
  switch (hwb) {
    case 0: o->set_state(XferState::TX_WAIT); return XferFault::NONE;
    case 1: o->markComplete(); return XferFault::NONE;
    case 2: o->abort(XferFault::BUS_FAULT); return XferFault::BUS_FAULT;
    default: return XferFault::BUS_BUSY;
  }
}
template <class T> static void adv(T* o) { if (hwa == 1) o->markComplete(); else if (hwa == 2) o->abort(XferFault::DEV_FAULT); }
/* ---- the platform's half */
XferFault I2CBusOp::begin() { return start(this); }
XferFault I2CBusOp::advance(uint32_t) { adv(this); return getFault(); }
int8_t I2CAdapter::_bus_init() { return rinit; }
int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder*) {}
XferFault SPIBusOp::begin() { if (hwb == 0 && !(hasCallback() && find(this) && slot[find(this)].veto)) _assert_cs(true); return start(this); }
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) { adv(this); return 0; }
int8_t SPIAdapter::io_op_callahead(BusOp*) { return 0; }
int8_t SPIAdapter::setMode(const uint8_t) { return 0; }
int8_t SPIAdapter::frequency(const uint32_t) { return 0; }
int8_t SPIAdapter::_bus_init() { return rinit; }
int8_t SPIAdapter::_bus_deinit() { return 0; }
void SPIAdapter::printDebug(StringBuilder*) {}
void SPIAdapter::printHardwareState(StringBuilder*) {}

static void gone(int j) { if (slot[j].own != 1) { slot[j].op = nullptr; slot[j].own = 0; } }
int8_t SPIAdapter::io_op_callback(BusOp* o) {     // jobs that name nobody
  const int j = find(o);
  ev.push_back(2); ev.push_back(j); ev.push_back((ll) o->getFault());
  gone(j);
  return 0;
}
struct Dev : public BusOpCallback {
  int8_t io_op_callahead(BusOp* o) { return slot[find(o)].veto ? 1 : 0; }
  int8_t queue_io_job(BusOp* o) { return kind == 1 ? i2c->queue_io_job(o) : spi->queue_io_job(o); }
  int8_t io_op_callback(BusOp* o) {
    const int j = find(o);
    ev.push_back(2); ev.push_back(j); ev.push_back((ll) o->getFault());
    if (j == 0) return 0;
    if (slot[j].recs > 0 && !purging) { slot[j].recs--; return BUSOP_CALLBACK_RECYCLE; }
    const int k = slot[j].nxt;
    if (k && slot[k].op && slot[k].op->get_state() == XferState::IDLE) {
      const size_t at = ev.size();
      const int r = queue_io_job(slot[k].op);
      (void) at; ev.push_back(3); ev.push_back(k); ev.push_back(r);
    }
    const int8_t ret = slot[j].recs < 0 ? BUSOP_CALLBACK_ERROR : BUSOP_CALLBACK_NOMINAL;
    gone(j);
    return ret;
  }
};
static Dev dev[3];

static uint32_t number(const std::string& t, const char* tag, int which) {
  size_t p = t.find(tag); if (p == std::string::npos) return 4000000000u;
  p += strlen(tag); while (p < t.size() && !isdigit((unsigned char) t[p]) && t[p] != '\n') p++;
  uint32_t a = 0, b = 0; while (p < t.size() && isdigit((unsigned char) t[p])) a = a * 10 + (t[p++] - '0');
  if (p < t.size() && t[p] == '/') p++;
  while (p < t.size() && isdigit((unsigned char) t[p])) b = b * 10 + (t[p++] - '0');
  return which ? b : a;
}

static void run(const Op& o, Ev& e) {
  if (o.is("new")) {     // (what was left over is abandoned)
    for (int i = 0; i <= SLOTS; i++) slot[i] = Slot();
    kind = (int) o.A(0); hwb = hwa = 0; rinit = (int8_t) o.A(6); purging = false;
    for (int i = 0; i < 256; i++) level[i] = -1;
    if (kind == 1) {
      I2CAdapterOptions opt(1, 4, 5); i2c = new I2C(&opt, (uint32_t) o.A(1), (uint8_t) o.A(2));
      i2c->setup(o.A(3) == 1, o.A(4) == 1); e.R(i2c->init());
    }
    else { spi = new SPI((uint32_t) o.A(1), (uint8_t) o.A(2)); spi->setup(o.A(5) == 1, o.A(4) == 1); e.R(spi->init()); }
  }
  else if (!kind) e.R(-98);
  else if (o.is("hw")) { hwb = o.A(0); hwa = o.A(1); e.R(0); }
  else if (o.is("job") && slot[o.A(0)].op) e.R(-99);
  else if (o.is("job")) {
    const int j = (int) o.A(0); const ll b = o.A(6);
    BusOpCallback* cb = o.A(2) ? &dev[o.A(2)] : nullptr;
    BusOp* op = nullptr; const int before = kind == 1 ? i2c->over() : spi->over();
    if (o.A(1) == 1) {
      if (kind == 1) { I2CBusOp* p = new I2CBusOp(BusOpcode::TX, cb); op = p; } else { SPIBusOp* p = new SPIBusOp(BusOpcode::TX, cb); op = p; }
      op->shouldReap(false);
    }
    else op = kind == 1 ? (BusOp*) i2c->new_op(BusOpcode::TX, cb) : (BusOp*) spi->new_op(BusOpcode::TX, cb);
    e.R(op ? 1 : 0);
    if (op) {
      if (find(op)) e.R(-90);                           // somebody has it
      if (op->buffer() || op->bufferLen() || op->callback != cb || op->get_opcode() != BusOpcode::TX) e.R(-91);   // not as new
      if (kind == 1 && (((I2CBusOp*) op)->sub_addr != -1 || ((I2CBusOp*) op)->dev_addr != 0)) e.R(-92);
      if (kind == 2 && (((SPIBusOp*) op)->getCSPin() != 255 || ((SPIBusOp*) op)->transferParamLength())) e.R(-92);
      slot[j] = Slot(); slot[j].op = op; slot[j].recs = o.A(3); slot[j].nxt = (int) o.A(4); slot[j].veto = o.A(5) == 1 && cb;
      slot[j].own = o.A(1) == 1 ? 1 : (kind == 1 ? i2c->over() : spi->over()) > before ? 3 : 2;
      if (b == 1) { slot[j].heap = (uint8_t*) malloc(8); op->setBuffer(slot[j].heap, 8); op->shouldFreeBuffer(true); }
      else if (b == 2) op->setBuffer(statbuf[j], 8);
      else if (b == 3) op->shouldFreeBuffer(true);
      if (kind == 1) { ((I2CBusOp*) op)->dev_addr = 0x20; ((I2CBusOp*) op)->sub_addr = 3; }
      else { ((SPIBusOp*) op)->setCSPin((uint8_t) (20 + j)); ((SPIBusOp*) op)->csActiveHigh(j % 2 == 0); ((SPIBusOp*) op)->setParams(1, 2, 3); }
    }
  }
  else if (o.is("submit")) {
    BusOp* op = slot[o.A(0)].op;
    bool may = (op != nullptr);
    if (may && kind == 1 && op->get_state() != XferState::IDLE) {
      bool in = false; for (int i = 0; i < i2c->qlen(); i++) in |= (i2c->at(i) == op);
      may = in && !(!i2c->currentJob() && i2c->asap && i2c->busOnline());
    }
    e.R(!may ? -99 : kind == 1 ? i2c->queue_io_job(op) : o.A(1) ? spi->queue_io_job(op, (int) o.A(1)) : spi->queue_io_job(op));
  }
  else if (o.is("drop")) {
    const int j = (int) o.A(0);
    if (slot[j].own == 1 && slot[j].op->get_state() == XferState::IDLE) { if (kind == 1) delete (I2CBusOp*) slot[j].op; else delete (SPIBusOp*) slot[j].op; slot[j] = Slot(); e.R(0); } else e.R(-99);
  }
  else if (o.is("poll")) e.R((ll) (int8_t) (kind == 1 ? i2c->poll() : spi->poll()));
  else if (o.is("serve")) e.R(kind == 2 ? spi->service_callback_queue() : -99);
  else if (o.is("irq")) {
    BusOp* c = kind == 1 ? (BusOp*) i2c->currentJob() : (BusOp*) spi->currentJob();
    if (c && c->inIOWait()) { done(c, o.A(0) == 1 ? XferFault::NONE : XferFault::DEV_FAULT); e.R(1); } else e.R(0);
  }
  else if (o.is("purge")) {
    purging = true;
    if (o.A(0) == 0) { if (kind == 1) i2c->purge_current_job(); else spi->purge_current_job(); }
    else { if (kind == 1) i2c->purge_queued_work(); else spi->purge_queued_work(); }
    purging = false; e.R(0);
  }
  else if (o.is("purgedev")) {
    purging = true; e.R(kind == 1 ? i2c->purge_queued_work_by_dev(&dev[o.A(0)]) : spi->purge_queued_work_by_dev(&dev[o.A(0)])); purging = false;
  }
}
void vh_exec(const Op& o, Ev& e) {
  ev.clear();
  run(o, e);
  for (ll x : ev) e.R(x);
  if (!kind) { e.S(VI{0}); return; }
  StringBuilder pr; if (kind == 1) i2c->printAdapter(&pr); else spi->printAdapter(&pr);
  std::string t; for (int i = 0; i < pr.length(); i++) t.push_back((char) pr.byteAt(i));
  BusOp* c = kind == 1 ? (BusOp*) i2c->currentJob() : (BusOp*) spi->currentJob();
  const bool idle = kind == 1 ? i2c->busIdle() : spi->busIdle();
  const int n = kind == 1 ? i2c->qlen() : spi->qlen();
  int live = 0;
  e.S(VI{c ? find(c) : 0, n, kind == 1 ? idle : spi->allQueuesClear(), kind == 1 ? i2c->avail() : spi->avail(), kind == 1 ? i2c->over() : spi->over(),
         kind == 1 ? i2c->freed() : spi->freed(), (ll) number(t, "(fail/total)", 1), (ll) number(t, "(fail/total)", 0), idle,
         kind == 1 ? i2c->busOnline() : spi->busOnline()});
  VI q; for (int i = 0; i < n; i++) q.push_back(find(kind == 1 ? i2c->at(i) : spi->at(i)));
  e.S(q);
  for (int i = 1; i <= SLOTS; i++) {
    VI v;
    if (slot[i].heap && __asan_address_is_poisoned(slot[i].heap)) slot[i].heap = nullptr;    // freed
    if (slot[i].heap) live++;
    if (slot[i].op) {
      BusOp* p = slot[i].op;
      const bool cs = kind == 2 && level[20 + i] == (i % 2 == 0 ? 1 : 0);
      v = VI{(ll) p->get_state(), (ll) p->getFault(), p->buffer() != nullptr, cs};
    }
    e.S(v);
  }
  e.S(VI{live});
}
