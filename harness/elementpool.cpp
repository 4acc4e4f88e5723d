#include "vh.h"
#include "ElementPool.h"

struct El { uint32_t a, b; El() : a(0xC0DE), b(0) {} };
static ElementPool<El>* p = nullptr;
static El* held[64];
static El* mem = nullptr;
static ll base = 0;

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    delete p; p = nullptr; free(mem); mem = nullptr;
    memset(held, 0, sizeof(held));
    base = heap_now();
    if (o.A(2)) mem = (El*) malloc(sizeof(El) * (size_t) o.A(0));
    p = new ElementPool<El>((uint32_t) o.A(0), (uint32_t) o.A(1), mem);
    e.R(0);
  }
  else if (o.is("end")) { delete p; p = nullptr; free(mem); mem = nullptr; e.R(heap_now() - base); }
  else if (o.is("alloc")) e.R(p->allocated());
  else if (o.is("take")) {
    El* x = p->take();
    bool fresh = true;
    for (int i = 0; i < 64; i++) if (x && held[i]) fresh &= (x + 1 <= held[i]) || (held[i] + 1 <= x);
    e.R(!x ? 0 : p->inPool(x) ? 1 : 2); e.R(fresh);
    if (x) { x->a = (uint32_t) o.A(0) * 77 + 1; x->b = (uint32_t) o.A(0) + 1000; }
    held[o.A(0)] = x;
  }
  else if (o.is("give")) {
    El* x = held[o.A(0)];
    bool ok = x->a == (uint32_t) o.A(0) * 77 + 1 && x->b == (uint32_t) o.A(0) + 1000;
    held[o.A(0)] = nullptr;
    e.R(p->give(x)); e.R(ok);
  }
  else if (o.is("limit")) { p->overdrawLimit((uint32_t) o.A(0)); e.R(p->overdrawLimit() == (uint32_t) o.A(0) ? 0 : 1); }
  VI s;
  if (p) { s.push_back(p->available()); s.push_back(p->capacity()); s.push_back(p->overdrawLimit());
           s.push_back(p->overdraws()); s.push_back(p->overdrawsFreed()); s.push_back(p->lowWaterMark()); }
  e.S(s);
}
