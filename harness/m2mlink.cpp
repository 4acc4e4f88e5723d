/* One end of a machine-to-machine link over a transport which records what it is given. */
#include "vh.h"
#include "M2MLink/M2MLink.h"

static VI ev;
static VI frames;
static ll leak0 = 0;

class Wire : public BufferAccepter {
  public:
    int mode;
    Wire() : mode(2) {}
    int8_t pushBuffer(StringBuilder* b) {
      if (mode < 0) return -1;
      const int n = b->length();
      frames.push_back(n);
      for (int i = 0; i < n; i++) frames.push_back(b->byteAt(i));
      if (mode) b->clear();
      return (int8_t) mode;
    }
    int32_t bufferAvailable() { return 100000; }
};

class Svc;
static M2MLink* link_ = nullptr;
static Wire* wire = nullptr;
static Svc* svcs[2] = { nullptr, nullptr };
static int policy = 0;

static KeyValuePair* number(int v) { return new KeyValuePair("k", (uint8_t) v); }

static void handle(int who, int pol, M2MMsg* m) {
  const bool exp = m->expectsReply();
  ev.push_back(who); ev.push_back((m->isReply() ? 2 : 0) + (exp ? 1 : 0)); ev.push_back(m->uniqueId());
  KeyValuePair* k = nullptr;
  ll got = -3;
  if (0 == m->getPayload(&k)) {
    if (nullptr == k) got = -1;
    else {
      uint32_t v = 0; char* s = nullptr;
      KeyValuePair* x = k->valueWithKey("k");
      if (nullptr == x) got = -2;
      else if (0 == x->get_as(&s)) { got = 1000; while (*s) { got += (*s == 'x') ? 1 : 100000; s++; } }
      else if (0 == x->get_as(&v)) got = v;
      else got = -2;
    }
  }
  ev.push_back(got);
  delete k;
  KeyValuePair* a = number(7);
  KeyValuePair* b = number(9);
  switch (pol) {
    case 1: if (exp) m->ack(); break;
    case 2: m->ack(); break;
    case 3: m->reply(a); break;
    case 4: m->reply(a, true); break;
    case 5: link_->send(b, false); break;
    case 6: link_->send(b, true); break;
    default: break;
  }
  delete a; delete b;
}

class Svc : public M2MService {
  public:
    int pol, slot;
    Svc(M2MLink* l, int s) : M2MService("svc", l), pol(0), slot(s) {}
    int8_t _handle_msg(uint32_t, M2MMsg* m) { handle(2 + slot, pol, m); return 0; }
};
static void on_msg(uint32_t, M2MMsg* m) { handle(1, policy, m); }
static void on_state(M2MLink*) { ev.push_back(100); }

static void drop() {
  delete link_; link_ = nullptr;
  delete wire; wire = nullptr;
  for (int i = 0; i < 2; i++) { delete svcs[i]; svcs[i] = nullptr; }
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    drop();
    VI().swap(ev); VI().swap(frames);
    leak0 = heap_now();
    const ll t0 = o.A(4);
    sim_us = (uint64_t) (t0 < 0 ? 4294967296LL + t0 : t0) * 1000ULL;
    sim_rand_counts = true; sim_rand = (uint64_t) o.A(5);
    M2MLinkOpts opts((uint32_t) o.A(0), (uint32_t) o.A(1), (uint32_t) o.A(2), TCode::CBOR,
        ((o.A(3) & 1) ? M2MLINK_FLAG_AUTH_REQUIRED : 0) | ((o.A(3) & 2) ? M2MLINK_FLAG_SEND_KA : 0) | ((o.A(3) & 4) ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0));
    link_ = new M2MLink(&opts);
    link_->verbosity((uint8_t) o.A(7));
    wire = new Wire(); policy = 0;
    for (int i = 0; i < 2 && i < o.A(6); i++) { svcs[i] = new Svc(link_, i); link_->setCallback(svcs[i]); }
    link_->setCallback(on_state);
  }
  else if (!link_) { e.R(-99); return; }
  ev.clear(); frames.clear();
  ll log = 0;
  if (o.is("eff")) { wire->mode = (int) o.A(0); link_->setEfferant(o.A(0) == 2 ? nullptr : wire); e.R(0); }
  else if (o.is("cb")) { link_->setCallback(on_msg); e.R(0); }
  else if (o.is("pol")) { if (o.A(0) == 0) policy = (int) o.A(1); else if (o.A(0) < 3 && svcs[o.A(0) - 1]) svcs[o.A(0) - 1]->pol = (int) o.A(1); e.R(0); }
  else if (o.is("poll")) {
    StringBuilder out;
    e.R(link_->poll(&out));
    for (int i = 0; i < out.length(); i++) log += out.byteAt(i) == 'z';
  }
  else if (o.is("push")) {
    StringBuilder b;
    const std::string s = o.str(0);
    if (s.size()) b.concat((uint8_t*) s.data(), (int) s.size());
    e.R(link_->pushBuffer(&b));
  }
  else if (o.is("hangup")) e.R(link_->hangup(o.A(0) == 1));
  else if (o.is("reset")) e.R(link_->reset());
  else if (o.is("send")) {
    KeyValuePair* k = nullptr;
    if (o.A(0) == 1) k = number((int) o.A(1));
    else if (o.A(0) == 2) { std::string x((size_t) o.A(1), 'x'); ExactZ z(x); k = new KeyValuePair("k", z.p); e.R(link_->send(k, o.A(2) == 1)); delete k; k = nullptr; }
    if (o.A(0) != 2) { e.R(link_->send(k, o.A(2) == 1)); delete k; }
  }
  else if (o.is("wlog")) {
    StringBuilder b;
    std::string z((size_t) o.A(0), 'z');
    b.concat(z.c_str());
    e.R(link_->writeRemoteLog(&b, o.A(1) == 1) == 0 ? 0 : -1);
  }
  else if (o.is("wait")) { sim_us += 1000ULL * (uint64_t) o.A(0); e.R(0); }
  else if (o.is("drop")) {
    drop();
    VI().swap(ev); VI().swap(frames);
    e.R(heap_now() - leak0);
    return;
  }
  else e.R(0);
  VI s;
  s.push_back((int) link_->currentState()); s.push_back(link_->isConnected()); s.push_back(link_->linkIdle());
  s.push_back(link_->syncCast()); s.push_back(link_->replyTimeouts()); s.push_back(link_->bufferAvailable());
  e.S(s); e.S(frames); e.S(ev); e.S(VI(1, log));
}
