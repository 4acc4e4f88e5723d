/* Two ends of a link, joined by wires which the test carries the bytes along. */
#include "vh.h"
#include "M2MLink/M2MLink.h"

static VI ev[2];
static std::vector<uint8_t> wire[2];
static ll leak0 = 0;

class Wire : public BufferAccepter {
  public:
    int who;
    int8_t pushBuffer(StringBuilder* b) {
      const int n = b->length();
      for (int i = 0; i < n; i++) wire[who].push_back(b->byteAt(i));
      b->clear();
      return 1;
    }
    int32_t bufferAvailable() { return 100000; }
};

static Wire wires[2];
static M2MLink* link_[2] = { nullptr, nullptr };
static int policy[2] = { 0, 0 };

static KeyValuePair* number(int v) { return new KeyValuePair("k", (uint8_t) v); }

static void handle(int w, M2MMsg* m) {
  ev[w].push_back(1); ev[w].push_back((m->isReply() ? 2 : 0) + (m->expectsReply() ? 1 : 0)); ev[w].push_back(m->uniqueId());
  const bool exp = m->expectsReply();
  KeyValuePair* k = nullptr;
  ll got = -3;
  if (0 == m->getPayload(&k)) {
    if (nullptr == k) got = -1;
    else {
      uint32_t v = 0; char* s = nullptr;
      KeyValuePair* x = k->valueWithKey("k");
      if (nullptr == x) got = -2;
      else if (0 == x->get_as(&s)) { got = 1000; while (*s) { got += (*s == 'x') ? 1 : 100000; s++; } }
      else if (0 == x->get_as(&v)) got = v;
      else got = -2;
    }
  }
  ev[w].push_back(got);
  delete k;
  KeyValuePair* a = number(7);
  KeyValuePair* b = number(9);
  switch (policy[w]) {
    case 1: if (exp) m->ack(); break;
    case 2: m->ack(); break;
    case 3: m->reply(a); break;
    case 4: m->reply(a, true); break;
    case 5: link_[w]->send(b, false); break;
    case 6: link_[w]->send(b, true); break;
    default: break;
  }
  delete a; delete b;
}
static void on_msg0(uint32_t, M2MMsg* m) { handle(0, m); }
static void on_msg1(uint32_t, M2MMsg* m) { handle(1, m); }
static void on_state(M2MLink* l) { ev[l == link_[1] ? 1 : 0].push_back(100); }

static void drop() {
  for (int i = 0; i < 2; i++) { delete link_[i]; link_[i] = nullptr; VI().swap(ev[i]); std::vector<uint8_t>().swap(wire[i]); policy[i] = 0; }
}
static void quiet() { ev[0].clear(); ev[1].clear(); }
static int poll(int w) { quiet(); StringBuilder out; return link_[w]->poll(&out); }
static ll arrive(int w, ll k) {
  quiet();
  if (k > (ll) wire[w].size()) k = (ll) wire[w].size();
  StringBuilder b;
  if (k > 0) { std::vector<uint8_t> x(wire[w].begin(), wire[w].begin() + k); b.concat(x.data(), (int) k); wire[w].erase(wire[w].begin(), wire[w].begin() + k); }
  link_[1 - w]->pushBuffer(&b);
  return k;
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    drop();
    leak0 = heap_now();
    sim_us = (uint64_t) o.A(5) * 1000ULL;
    sim_rand_counts = true; sim_rand = (uint64_t) o.A(6);
    for (int i = 0; i < 2; i++) {
      M2MLinkOpts opts((uint32_t) o.A(2), (uint32_t) o.A(3), (uint32_t) o.A(4), TCode::CBOR,
          ((o.A(i) & 1) ? M2MLINK_FLAG_AUTH_REQUIRED : 0) | ((o.A(i) & 2) ? M2MLINK_FLAG_SEND_KA : 0) | ((o.A(i) & 4) ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0));
      link_[i] = new M2MLink(&opts);
      wires[i].who = i;
      link_[i]->setEfferant(&wires[i]);
      link_[i]->setCallback(on_state);
      link_[i]->setCallback(i ? on_msg1 : on_msg0);
    }
  }
  else if (!link_[0]) { e.R(-99); return; }
  quiet();
  const int w = (o.A(0) == 2) ? 1 : 0;
  if (o.is("poll")) e.R(poll(w));
  else if (o.is("arrive")) e.R(arrive(w, o.A(1)));
  else if (o.is("lose")) {
    const size_t at = (size_t) o.A(1) - 1, n = wire[w].size();
    if (at < n) wire[w].erase(wire[w].begin() + at, wire[w].begin() + std::min(n, at + (size_t) o.A(2)));
    e.R(0);
  }
  else if (o.is("spoil")) { if ((size_t) o.A(1) <= wire[w].size()) wire[w][o.A(1) - 1] = (uint8_t) o.A(2); e.R(0); }
  else if (o.is("pol")) { policy[w] = (int) o.A(1); e.R(0); }
  else if (o.is("send")) {
    KeyValuePair* k = nullptr;
    std::string x;
    if (o.A(1) == 1) k = number((int) o.A(2));
    else if (o.A(1) == 2) { x.assign((size_t) o.A(2), 'x'); k = new KeyValuePair("k", (char*) x.c_str()); }
    e.R(link_[w]->send(k, o.A(3) == 1));
    delete k;
  }
  else if (o.is("hangup")) e.R(link_[w]->hangup(o.A(1) == 1));
  else if (o.is("reset")) e.R(link_[w]->reset());
  else if (o.is("wait")) { sim_us += 1000ULL * (uint64_t) o.A(0); e.R(0); }
  else if (o.is("turns")) {
    for (ll i = 0; i < o.A(1); i++) {
      poll(0); poll(1); arrive(0, 1 << 30); arrive(1, 1 << 30);
      quiet();
      sim_us += 1000ULL * (uint64_t) o.A(0);
    }
    e.R(0);
  }
  else if (o.is("drop")) { drop(); e.R(heap_now() - leak0); return; }
  else e.R(0);
  for (int i = 0; i < 2; i++) {
    VI s;
    s.push_back((int) link_[i]->currentState()); s.push_back(link_[i]->isConnected()); s.push_back(link_[i]->linkIdle());
    s.push_back(link_[i]->syncCast()); s.push_back(link_[i]->replyTimeouts()); s.push_back(link_[i]->bufferAvailable());
    e.S(s);
  }
  e.S(ev[0]); e.S(ev[1]);
  for (int i = 0; i < 2; i++) { VI v(wire[i].begin(), wire[i].end()); e.S(v); }
}
