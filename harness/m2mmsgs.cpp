/* Headers and messages of the machine-to-machine link by themselves. */
#include "vh.h"
#include "M2MLink/M2MLink.h"

static M2MMsgHdr* hdr = nullptr;
static M2MMsg* msg = nullptr;
static ll leak0 = -1;
static bool loaded = false;   // the message accepted what it was last given to send

static std::string held;   // what a payload refers to
static KeyValuePair* payload(int kind, int v) {
  if (kind == 1) return new KeyValuePair("k", (uint8_t) v);
  if (kind == 2) { held.assign((size_t) v, 'x'); return new KeyValuePair("k", (char*) held.c_str()); }
  return nullptr;
}
static void fill(StringBuilder* b, const std::string& s, int cut) {
  // in two pieces, so that a frame may lie across fragments
  const int n = (int) s.size(), c = (cut > 0 && cut < n) ? cut : n;
  if (c) b->concat((uint8_t*) s.data(), c);
  if (n > c) b->concat((uint8_t*) s.data() + c, n - c);
}
static void bytes(Ev& e, StringBuilder* b, VI first) {
  const int n = b->length();
  for (int i = 0; i < n; i++) first.push_back(b->byteAt(i));
  for (ll x : first) e.R(x);
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("begin")) { leak0 = heap_now(); sim_rand_counts = true; sim_rand = 0; sim_us = 5000000; e.R(0); }
  else if (o.is("mk")) { delete hdr; hdr = new M2MMsgHdr((M2MMsgCode) o.A(0), (uint8_t) o.A(1), (uint8_t) o.A(2), (uint32_t) o.A(3)); e.R(0); }
  else if (o.is("setlen") && hdr) e.R(hdr->set_payload_length((uint32_t) (o.A(0) < 0 ? 4294967296LL + o.A(0) : o.A(0))));
  else if (o.is("flag") && hdr) { hdr->expectsReply(o.A(0) == 1); hdr->isReply(o.A(1) == 1); hdr->rebuild_checksum(); e.R(0); }
  else if (o.is("ser") && hdr) { StringBuilder b; bool ok = hdr->serialize(&b); bytes(e, &b, VI(1, ok)); }
  else if (o.is("parse")) {
    delete hdr; hdr = new M2MMsgHdr();
    StringBuilder b; fill(&b, o.str(0), (int) o.A(0));
    const int r = M2MMsg::attempt_header_parse(hdr, &b);
    if (r < 0) { delete hdr; hdr = nullptr; }
    e.R(r); e.R(b.length());
  }
  else if (o.is("unser")) {
    delete msg;
    StringBuilder b; fill(&b, o.str(0), (int) o.A(0));
    msg = M2MMsg::unserialize(&b);
    e.R(msg != nullptr); e.R(b.length());
  }
  else if (o.is("feed") && msg && msg->direction() == BusOpcode::RX) { StringBuilder b; fill(&b, o.str(0), (int) o.A(0)); e.R(msg->accumulate(&b)); e.R(b.length()); }
  else if (o.is("out")) {
    delete msg;
    M2MMsgHdr h((M2MMsgCode) o.A(0), 0, (uint8_t) o.A(1), (uint32_t) o.A(2));
    msg = new M2MMsg(&h, BusOpcode::TX);
    KeyValuePair* k = payload((int) o.A(3), (int) o.A(4));
    const int r = msg->setPayload(k); loaded = (0 == r); e.R(r);
    delete k;
  }
  else if (o.is("pay") && msg) { KeyValuePair* k = payload((int) o.A(0), (int) o.A(1)); const int r = msg->setPayload(k); if (r != -1) loaded = (0 == r); e.R(r); delete k; }
  else if (o.is("reply") && msg) { KeyValuePair* k = payload((int) o.A(0), (int) o.A(1)); const int r = msg->reply(k, o.A(2) == 1); if (r != -1) loaded = (0 == r); e.R(r); delete k; }
  else if (o.is("write") && msg && msg->direction() == BusOpcode::TX && loaded) { StringBuilder b; int r = msg->serialize(&b); bytes(e, &b, VI(1, r)); }
  else if (o.is("sent") && msg) { msg->markSent(); e.R(0); }
  else if (o.is("ackd") && msg) { msg->markACKd(); e.R(0); }
  else if (o.is("retry") && msg) e.R(msg->attemptRetry());
  else if (o.is("end")) { delete hdr; delete msg; hdr = nullptr; msg = nullptr; std::string().swap(held); sim_rand = 0; e.R(heap_now() - leak0); }
  else e.R(-99);
  VI a, b;
  if (hdr) {
    for (ll x : std::initializer_list<ll>{(int) hdr->msg_code, hdr->flags, hdr->msg_len, hdr->msg_id, hdr->chk_byte, hdr->header_length(), hdr->payload_length(),
         hdr->isValid(), hdr->isSync(), hdr->expectsReply(), hdr->isReply()}) a.push_back(x);
  }
  if (msg) {
    StringBuilder dbg; msg->printDebug(&dbg);
    for (ll x : std::initializer_list<ll>{msg->direction() == BusOpcode::TX ? 1 : 0, (int) msg->msgCode(), msg->expectsReply(), msg->isReply(), msg->uniqueId(),
         msg->isValidMsg(), msg->wasSent(), msg->wasACKd()}) b.push_back(x);
    if (msg->direction() == BusOpcode::RX) {
      ll got = -3;
      KeyValuePair* k = nullptr;
      if (0 == msg->getPayload(&k)) {
        if (nullptr == k) got = -1;
        else {
          uint32_t v = 0; char* s = nullptr;
          KeyValuePair* x = k->valueWithKey("k");
          if (nullptr == x) got = -2;
          else if (0 == x->get_as(&s)) { got = 1000; while (*s) { got += (*s == 'x') ? 1 : 100000; s++; } }
          else if (0 == x->get_as(&v)) got = v;
          else got = -2;
        }
        delete k;
      }
      b.push_back(msg->rxComplete()); b.push_back(got);
    }
  }
  e.S(a); e.S(b);
}
