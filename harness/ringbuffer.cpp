#include "vh.h"
#include "RingBuffer.h"

static RingBuffer<uint16_t>* rb = nullptr;

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) { delete rb; rb = new RingBuffer<uint16_t>((unsigned) o.A(0)); e.R(0); }
  else if (o.is("insert")) e.R(rb->insert((uint16_t) o.A(0)));
  else if (o.is("absent")) e.R(rb->insertIfAbsent((uint16_t) o.A(0)));
  else if (o.is("insertN")) {
    size_t n = o.d[0].size();
    uint16_t* p = (uint16_t*) malloc(n * 2 + (n ? 0 : 1));
    for (size_t i = 0; i < n; i++) p[i] = (uint16_t) o.d[0][i];
    e.R(rb->insert(p, n)); free(p);
  }
  else if (o.is("get")) e.R(rb->get());
  else if (o.is("peek")) e.R(rb->peek());
  else if (o.is("getN") || o.is("peekN")) {
    size_t n = (size_t) o.A(0);
    uint16_t* p = (uint16_t*) malloc(n * 2 + (n ? 0 : 1));
    int x = o.is("getN") ? rb->get(p, n) : rb->peek(p, n);
    e.R(x);
    for (int i = 0; i < x && i < (int) n; i++) e.R(p[i]);
    free(p);
  }
  else if (o.is("peekAt")) e.R(rb->peek((unsigned) o.A(0)));
  else if (o.is("cull")) e.R(rb->cull((unsigned) o.A(0)));
  else if (o.is("contains")) e.R(rb->contains((uint16_t) o.A(0)));
  else if (o.is("clear")) { rb->clear(); e.R(0); }
  VI v;
  v.push_back(rb->count()); v.push_back(rb->vacancy()); v.push_back(rb->isEmpty()); v.push_back(rb->capacity());
  e.S(v);
}
