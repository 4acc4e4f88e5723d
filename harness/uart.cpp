/* Conformance driver for the UART adapter (UART).  The adapter's platform-provided part is a simulated line. */
#include "vh.h"
#include <functional>
#include "BusQueue/UARTAdapter.h"

struct Taker : public BufferAccepter {
  int32_t room = 0, burst = 0; std::string offered, got; bool asked = false;
  std::function<void()> during;
  int8_t pushBuffer(StringBuilder* b) {
    asked = true;
    const int len = b->length(); const int n = len < burst ? len : burst;
    for (int i = 0; i < len; i++) offered.push_back((char) b->byteAt(i));
    if (during) during();
    if (n <= 0) return -1;
    for (int i = 0; i < n; i++) got.push_back((char) b->byteAt(i));
    b->cull(n);
    return n == len ? 1 : 0;
  }
  int32_t bufferAvailable() { return room; }
};

class Uart : public UARTAdapter {
  public:
    int8_t rinit = 0, rdeinit = 0; bool bad = false; ll quota = 0;
    std::string in, mid, out; Taker taker; bool tx_pin, rx_pin;
    Uart(int t, int r, bool p, bool q) : UARTAdapter(3, p ? 1 : 255, q ? 2 : 255, 255, 255, t, r), tx_pin(p), rx_pin(q) {
      taker.during = [this]() { for (char c : mid) arrive(c); };
    }
    virtual ~Uart() {}
    void irq_handler() {}
    void hookup(bool on) { readCallback(on ? &taker : nullptr); }
    bool arrive(char c) { if (0 != _rx_buffer.insert((uint8_t) c)) return false; last_byte_rx_time = millis(); return true; }
  protected:
    int8_t _pf_init() {
      if (0 == rinit) { _adapter_set_flag(UART_FLAG_HAS_TX, tx_pin); _adapter_set_flag(UART_FLAG_HAS_RX, rx_pin); _adapter_set_flag(UART_FLAG_UART_READY); }
      return rinit;
    }
    int8_t _pf_deinit() { return rdeinit; }
    int8_t _pf_poll() {
      if (bad) return -1;
      if (!initialized()) return 0;
      int n = 0;
      if (txCapable()) while (quota-- > 0 && _tx_buffer.count()) { out.push_back((char) _tx_buffer.get()); n++; }
      if (rxCapable()) for (char c : in) if (arrive(c)) n++;
      const int p = _handle_rx_push();
      return (n + p) > 0 ? 1 : 0;
    }
};
static Uart* u = nullptr;

static void fill(StringBuilder* b, const Op& o) { for (size_t i = 0; i < o.d.size(); i++) { Exact x(o.str(i)); if (x.n) b->concat((uint8_t*) x.p, (int) x.n); } }
static void rest(Ev& e, StringBuilder* b) { const int n = b->length(); for (int i = 0; i < n; i++) e.R(b->byteAt(i)); }

static void run(const Op& o, Ev& e) {
  if (o.is("new")) { delete u; sim_us = 0; u = new Uart((int) o.A(0), (int) o.A(1), o.A(2) == 1, o.A(3) == 1); e.R(0); }
  else if (!u) e.R(-98);
  else if (o.is("hw")) { u->rinit = (int8_t) o.A(0); u->rdeinit = (int8_t) o.A(1); e.R(0); }
  else if (o.is("init")) {
    std::string s = o.str(0);
    if (s.size()) {
      UARTOpts* p = (UARTOpts*) malloc(sizeof(UARTOpts)); memset((void*) p, 0, sizeof(UARTOpts)); memcpy((void*) p, s.data(), s.size() < sizeof(UARTOpts) ? s.size() : sizeof(UARTOpts));
      e.R(u->init(p)); free(p);
    }
    else e.R(u->init(nullptr));
  }
  else if (o.is("deinit")) e.R(u->deinit());
  else if (o.is("reset")) e.R(u->reset());
  else if (o.is("opts")) { const uint8_t* p = (const uint8_t*) u->uartOpts(); for (size_t i = 0; i < sizeof(UARTOpts); i++) e.R(p[i]); }
  else if (o.is("push")) { StringBuilder b; fill(&b, o); e.R(u->pushBuffer(&b)); rest(e, &b); }
  else if (o.is("write")) {
    std::string s; for (size_t i = 0; i < o.d.size(); i++) s += o.str(i);
    if (o.A(0) == 0) { StringBuilder b; fill(&b, o); e.R((ll) u->write(&b)); rest(e, &b); }
    else if (o.A(0) == 1) { Exact x(s); e.R((ll) u->write((uint8_t*) x.p, (uint32_t) x.n)); }
    else if (o.A(0) == 2) { ExactZ x(s); e.R((ll) u->write((const char*) x.p)); }
    else e.R((ll) u->write(s[0]));
  }
  else if (o.is("readn")) {
    const uint32_t n = (uint32_t) o.A(0); uint8_t* m = (uint8_t*) malloc(n ? n : 1);
    const uint32_t k = u->read(m, n); e.R((ll) k); for (uint32_t i = 0; i < k && i < n; i++) e.R(m[i]); free(m);
  }
  else if (o.is("reads")) { StringBuilder b; fill(&b, o); e.R((ll) u->read(&b)); rest(e, &b); }
  else if (o.is("sink")) { u->hookup(o.A(0) != -2); u->taker.room = (int32_t) o.A(0); u->taker.burst = (int32_t) o.A(1); e.R(0); }
  else if (o.is("poll")) {
    u->quota = o.A(0); u->bad = (o.A(1) == 1); u->in = o.str(0); u->mid = o.str(1);
    u->out.clear(); u->taker.offered.clear(); u->taker.got.clear();
    const bool up = u->initialized();
    const PollResult p = u->poll();
    e.R((ll) (int8_t) p);
    if (up && !u->bad) {
      e.R((ll) u->out.size()); for (char c : u->out) e.R((uint8_t) c);
      e.R((ll) u->taker.offered.size()); e.R((ll) u->taker.got.size()); for (char c : u->taker.got) e.R((uint8_t) c);
    }
  }
  else if (o.is("tick")) { sim_us += (uint64_t) o.A(0) * 1000; e.R(0); }
  else if (o.is("silent")) { e.R(u->rxTimeoutExpired()); e.R((ll) u->lastRXTime()); }
}
void vh_exec(const Op& o, Ev& e) {
  run(o, e);
  if (u) {
    e.S(VI{u->initialized(), u->txCapable(), u->rxCapable(), u->pendingTxBytes(), u->pendingRxBytes(), u->bufferAvailable()});
    e.S(VI{(ll) (u->bitrate() & 0xffff), (ll) (u->bitrate() >> 16)});
  }
}
