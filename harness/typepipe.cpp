/* Conformance driver for the type pipe (TypePipe). */
#include "cborkit.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"

struct Wire : public BufferAccepter {
  int32_t room = 0;
  std::string got;
  int8_t pushBuffer(StringBuilder* b) {
    const int32_t len = b->length();
    const int32_t n = len < room ? len : room;
    if (n <= 0) return -1;
    std::string s = all(b);
    got += s.substr(0, n);
    b->cull(n);
    room -= n;
    return (n == len) ? 1 : 0;
  }
  int32_t bufferAvailable() { return room; }
};

static Wire* wire = nullptr;
static C3PTypePipeSource* src = nullptr;
static C3PTypePipeSink* sink = nullptr;
static StringBuilder* up = nullptr;
static VI got;

static int8_t deliver(C3PValue* v) {
  ll n = 0;
  VI l = list(v, &n);
  got.push_back(1); got.push_back(n);
  append(got, l);
  delete v;
  return 0;
}

/* Through the overload which takes the native type of this value. */
static int native(C3PTypePipeSource* s, C3PValue* v) {
  #define NAT(TC, T) case TCode::TC: { T x = 0; v->get_as(&x); return s->pushValue(x); }
  switch (v->tcode()) {
    NAT(INT8, int8_t) NAT(INT16, int16_t) NAT(INT32, int32_t) NAT(INT64, int64_t)
    NAT(UINT8, uint8_t) NAT(UINT16, uint16_t) NAT(UINT32, uint32_t) NAT(UINT64, uint64_t)
    NAT(FLOAT, float) NAT(DOUBLE, double)
    case TCode::BOOLEAN: return s->pushValue(v->get_as_bool());
    case TCode::STR: {
      char* x = nullptr; v->get_as(&x);
      std::string t = x ? x : "";
      return (t.size() % 2) ? s->pushValue((const char*) t.c_str()) : s->pushValue((char*) t.c_str()); }
    default: break;
  }
  return s->pushValue(v);
}

static int push_one(C3PTypePipeSource* s, C3PValue* v, bool nat) {
  if (v->has_key()) return s->pushValue((KeyValuePair*) v);
  return nat ? native(s, v) : s->pushValue(v);
}

void vh_exec(const Op& o, Ev& e) {
  got.clear();
  if (o.is("new")) {
    delete src; delete sink; delete wire; delete up;
    wire = new Wire(); up = new StringBuilder();
    wire->room = (int32_t) o.A(3);
    sink = new C3PTypePipeSink(TCode::CBOR, (uint32_t) o.A(0), o.A(1) ? (C3PValueDelivery) deliver : nullptr);
    src = new C3PTypePipeSource(TCode::CBOR, o.A(2) == 1 ? (BufferAccepter*) wire : o.A(2) == 2 ? (BufferAccepter*) sink : nullptr);
    e.R(0);
  }
  else if (o.is("link")) { src->setEfferant(o.A(0) == 1 ? (BufferAccepter*) wire : o.A(0) == 2 ? (BufferAccepter*) sink : nullptr); e.R(0); }
  else if (o.is("value")) {
    VI nodes; for (auto& n : o.d) append(nodes, n);
    const bool keyed = nodes.size() && nodes[0] == 1;
    Arena a;
    size_t next = 0;
    C3PValue* v = keyed ? (C3PValue*) pairs(nodes, 0, nodes.size(), a) : build(nodes, 0, &next, a);
    // what is written if there is room for all of it
    Wire big; big.room = 1 << 20;
    { C3PTypePipeSource s(TCode::CBOR, &big); push_one(&s, v, o.A(0)); }
    const int ret = push_one(src, v, o.A(0));
    e.R(ret < 0 ? -1 : ret);
    for (char c : big.got) e.R((uint8_t) c);
    delete v;
  }
  else if (o.is("room")) { wire->room = (int32_t) o.A(0); e.R(0); }
  else if (o.is("pass")) {
    const std::string s = o.str(0);
    StringBuilder t; { Exact x(s); if (x.n) t.concat(x.p, (int) x.n); }
    const int32_t av = src->bufferAvailable();
    const int r = src->pushBuffer(&t);
    e.R(r); e.R(t.length()); e.R(av);
  }
  else if (o.is("feed")) { Exact x(o.str(0)); if (x.n) up->concat(x.p, (int) x.n); e.R(0); }
  else if (o.is("carry")) {
    const std::string s = wire->got.substr(0, (size_t) o.A(0));
    Exact x(s); if (x.n) up->concat(x.p, (int) x.n);
    wire->got.erase(0, s.size());
    e.R(0);
  }
  else if (o.is("discard")) { up->clear(); e.R(0); }
  else if (o.is("push")) {
    if (up->isEmpty(true)) e.R(-99);
    else {
      const int before = up->length();
      const int r = sink->pushBuffer(up);
      e.R(r < 0 ? (up->length() == before ? -1 : r) : r);
    }
  }
  e.S(wire ? wire->got.data() : nullptr, wire ? wire->got.size() : 0);
  const std::string s = up ? all(up) : std::string();
  e.S(s.data(), s.size());
  VI v; v.push_back(wire ? wire->room : 0); v.push_back(src ? src->byteCount() : 0); v.push_back(sink ? sink->byteCount() : 0);
  e.S(v);
  e.S(got);
}
