#include "vh.h"
#include "StringBuilder.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"

static std::string all(StringBuilder* b) {       // without disturbing the fragments
  std::string s;
  const int n = b->length();
  for (int i = 0; i < n; i++) s.push_back((char) b->byteAt(i));
  return s;
}
static void give(StringBuilder* b, const std::string& s) {   // one fragment per call
  Exact x(s);
  if (s.size()) b->concat(x.p, (int) s.size());
}

/* A downstream accepter with announced room, which claims at most burst bytes of one offer. */
struct Scripted : public BufferAccepter {
  int32_t room = 0, burst = 0;
  std::string got;
  int8_t pushBuffer(StringBuilder* b) {
    const int32_t len = b->length();
    int32_t n = len < room ? len : room;
    if (burst < n) n = burst;
    if (n <= 0) return -1;
    for (int i = 0; i < n; i++) got.push_back((char) b->byteAt(i));
    b->cull(n);
    room -= n;
    return (n == len) ? 1 : 0;
  }
  int32_t bufferAvailable() { return room; }
};

static StringBuilderSink* sink = nullptr;
static BufferAccepterFork* fk = nullptr;
static Scripted* side[2];
static StringBuilder* buf = nullptr;

void vh_exec(const Op& o, Ev& e) {
  const bool forking = getenv("VF_ACC") && 0 == strcmp(getenv("VF_ACC"), "fork");
  ll ret = 0;
  for (int i = 0; i < 2; i++) if (side[i]) side[i]->got.clear();
  if (o.is("new")) {
    delete buf; delete sink; delete fk;
    buf = new StringBuilder(); sink = nullptr; fk = nullptr;
    if (forking) {
      for (int i = 0; i < 2; i++) { delete side[i]; side[i] = new Scripted(); }
      fk = new BufferAccepterFork(o.A(0) ? side[0] : nullptr, o.A(1) ? side[1] : nullptr);
    }
    else sink = new StringBuilderSink((int32_t) o.A(0));
  }
  else if (o.is("feed")) give(buf, o.str(0));
  else if (o.is("push")) ret = forking ? fk->pushBuffer(buf) : sink->pushBuffer(buf);
  else if (o.is("extra")) give(sink, o.str(0));
  else if (o.is("drain")) sink->cull((int) o.A(0));
  else if (o.is("room")) { side[o.A(0) - 1]->room = (int32_t) o.A(1); side[o.A(0) - 1]->burst = (int32_t) o.A(2); }
  else if (o.is("swap")) {
    const int i = (int) o.A(0) - 1;
    delete side[i]; side[i] = new Scripted();
    if (i == 0) fk->leftHand(side[i]); else fk->rightHand(side[i]);
  }
  e.R(ret);
  const std::string b = all(buf);
  e.S(b.data(), b.size());
  VI v;
  if (forking) {
    for (int i = 0; i < 2; i++) e.S(side[i]->got.data(), side[i]->got.size());
    v.push_back(side[0]->room); v.push_back(side[1]->room); v.push_back(fk->bufferAvailable());
  }
  else {
    const std::string g = all(sink);
    e.S(g.data(), g.size());
    v.push_back(sink->bufferAvailable());
  }
  e.S(v);
}
