/* Conformance driver for three-axis pipelines. */
#include "vh.h"
#include <math.h>
#include "StringBuilder.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"

enum { PLACES = 8 };
static ll near(double x) { return isfinite(x) ? (ll) llround(x) : -999999; }
static VI tale;
static void tell(Vector3f* v) { tale.push_back(near(v->x)); tale.push_back(near(v->y)); tale.push_back(near(v->z)); }
static void told(Vector3f* d, Vector3f* er) { tell(d); tale.push_back(er != nullptr); if (er) tell(er); }

template <int I, int R> static int8_t cb(SpatialSense s, Vector3f* d, Vector3f* er, uint32_t n) {
  tale.push_back(I); tale.push_back((ll) s); tale.push_back(n); told(d, er); return R;
}
static TripleAxisTerminalCB calls(int i, int c) {
  static const TripleAxisTerminalCB A[PLACES][2] = {{cb<1, 0>, cb<1, 1>}, {cb<2, 0>, cb<2, 1>}, {cb<3, 0>, cb<3, 1>}, {cb<4, 0>, cb<4, 1>},
                                                    {cb<5, 0>, cb<5, 1>}, {cb<6, 0>, cb<6, 1>}, {cb<7, 0>, cb<7, 1>}, {cb<8, 0>, cb<8, 1>}};
  return c ? A[i - 1][c - 1] : nullptr;
}
struct Other : public TripleAxisPipe {
  int i, c; Other(int i_, int c_) : i(i_), c(c_) {}
  int8_t pushVector(const SpatialSense s, Vector3f* d, Vector3f* er) { tale.push_back(i); tale.push_back((ll) s); told(d, er); return (int8_t) c; }
  void printPipe(StringBuilder*, uint8_t, uint8_t) {}
};
struct Place {
  int k = 0;
  TripleAxisTerminus* t = nullptr; TripleAxisFork* f = nullptr; TripleAxisSingleFilter* s = nullptr; TripleAxisConvention* c = nullptr; Other* o = nullptr;
  TripleAxisPipe* p() { return k == 1 ? (TripleAxisPipe*) t : k == 2 ? (TripleAxisPipe*) f : k == 3 ? (TripleAxisPipe*) s : k == 4 ? (TripleAxisPipe*) c : (TripleAxisPipe*) o; }
  void wipe() { delete t; delete f; delete s; delete c; delete o; *this = Place(); }
};
static Place pl[PLACES + 1];
static int places = 0;
static TripleAxisPipe* at(ll j) { return j ? pl[j].p() : nullptr; }
static bool child(ll i, ll j) { return j == 0 || (j > i && j <= places && pl[j].k); }
static bool fine(const Op& o) { return o.A(0) >= 1 && o.A(0) <= places && child(o.A(0), o.A(1)) && child(o.A(0), o.A(2)); }

void vh_exec(const Op& o, Ev& e) {
  const ll i = o.a.size() ? o.A(0) : 0;
  if (o.is("new")) { for (int j = 1; j <= PLACES; j++) pl[j].wipe(); places = (int) i; sim_us = 0; e.R(0); }
  else if (o.is("clock")) { sim_us += 1000 * (uint64_t) i; e.R(0); }
  else if (o.is("node")) {
    const ll k = o.A(1), s = o.A(2), a = o.A(3), b = o.A(4), st = o.A(5), w = o.A(6), c = o.A(7);
    if (!(i >= 1 && i <= places && child(i, a) && child(i, b)) || pl[i].k || (k == 3 && w < 1)) e.R(-99);
    else {
      Place& x = pl[i]; x.k = (int) k;
      if (k == 1) x.t = new TripleAxisTerminus((SpatialSense) s, calls((int) i, (int) c));
      else if (k == 2) { if (i % 2) x.f = new TripleAxisFork(at(a), at(b)); else { x.f = new TripleAxisFork(); x.f->setLeft(at(a)); x.f->setRight(at(b)); } }
      else if (k == 3) x.s = new TripleAxisSingleFilter((SpatialSense) s, at(a), st == 2 ? FilteringStrategy::MOVING_MED : FilteringStrategy::RAW, (int) w);
      else if (k == 4) x.c = new TripleAxisConvention(at(a), (GnomonType) c, GnomonType::RH_POS_Z);
      else x.o = new Other((int) i, (int) c);
      e.R(0);
    }
  }
  else if (o.is("link")) {
    if (!fine(o) || pl[i].k < 2 || pl[i].k > 4) e.R(-99);
    else {
      if (pl[i].k == 2) { pl[i].f->setLeft(at(o.A(1))); pl[i].f->setRight(at(o.A(2))); }
      else if (pl[i].k == 3) pl[i].s->setNext(at(o.A(1)));
      else pl[i].c->setNext(at(o.A(1)));
      e.R(0);
    }
  }
  else if (o.is("push")) {
    if (i < 1 || i > places || !pl[i].k) e.R(-99);
    else {
      Vector3f* d = new Vector3f((float) o.A(2), (float) o.A(3), (float) o.A(4));
      Vector3f* er = o.A(5) ? new Vector3f((float) o.A(6), (float) o.A(7), (float) o.A(8)) : nullptr;
      tale.clear();
      const int r = pl[i].p()->pushVector((SpatialSense) o.A(1), d, er);
      /* what was pushed is the pusher's */
      const bool same = near(d->x) == o.A(2) && near(d->y) == o.A(3) && near(d->z) == o.A(4) && (!er || (near(er->x) == o.A(6) && near(er->y) == o.A(7) && near(er->z) == o.A(8)));
      e.R(same ? r : -77); for (ll x : tale) e.R(x);
      delete d; delete er;
      StringBuilder txt; if (r < 0) pl[i].p()->printPipe(&txt, 0, 1);
    }
  }
  else if (o.is("take")) {
    if (i < 1 || i > places || (pl[i].k != 1 && pl[i].k != 3)) e.R(-99);
    else {
      Vector3f d, er; uint32_t n = 0;
      tale.clear();
      if (pl[i].k == 1) { er.set(pl[i].t->getError()); e.R(pl[i].t->getDataWithErr(&d, &er, &n)); tell(&d); tell(&er); tale.push_back(n); }
      else { e.R(pl[i].s->getDataWithErr(&d, &er)); tell(&d); tell(&er); }
      for (ll x : tale) e.R(x);
    }
  }
  else if (o.is("clear")) { if (i < 1 || i > places || pl[i].k != 1) e.R(-99); else { pl[i].t->reset(); e.R(0); } }
  for (int j = 1; j <= places; j++) {
    Place& x = pl[j]; tale.clear();
    tale.push_back(x.k);
    if (x.k == 1) { tale.push_back(x.t->updateCount()); tale.push_back(x.t->lastUpdate()); tale.push_back(x.t->dataFresh()); tale.push_back(x.t->haveError()); tell(x.t->getData()); tell(x.t->getError()); }
    else if (x.k == 3) { tale.push_back(x.s->initialized()); tale.push_back(x.s->initialized() && x.s->windowFull()); tale.push_back(x.s->totalSamples()); tale.push_back(x.s->haveError()); tell(x.s->getError()); }
    e.S(tale);
  }
}
