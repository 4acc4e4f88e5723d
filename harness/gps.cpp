/* Conformance driver for the GPS sink. */
#include "vh.h"
#include <math.h>
#include <time.h>
#include "StringBuilder.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"

class Gps : public GPSWrapper { public: LocationFrame* frame() { return &_loc_frame; } };
static Gps* g = nullptr;
static LocationFrame kept;
static ll calls = 0;
static VI told;
static int8_t heard(LocationFrame* f) {
  calls++; kept = LocationFrame(); kept.copyFrame(f);
  told.push_back(f->sat_count); told.push_back((ll) (f->timestamp % 86400));
  return 0;
}
static void num(Ev& e, double x, double unit, double lim) {
  if (isnan(x)) e.R(0);
  else if (fabs(x) >= lim) e.R(2);
  else { e.R(1); e.R((ll) llround(x * unit)); }
}
void vh_exec(const Op& o, Ev& e) {
  setenv("TZ", "UTC0", 1);
  if (o.is("new")) { delete g; g = new Gps(); kept = LocationFrame(); calls = 0; told.clear(); if (o.A(0)) g->setCallback(heard); e.R(g->init()); }
  else if (!g) e.R(-98);
  else if (o.is("init")) e.R(g->init());
  else if (o.is("push")) {
    const std::string s = o.str(0);
    if (s.find('\0') != std::string::npos) e.R(-99);
    else {
      told.clear();
      Exact x(s); StringBuilder b; if (x.n) b.concat(x.p, x.n);
      const int r = g->pushBuffer(&b);
      e.R(b.isEmpty() ? r : -77);
      for (ll t : told) e.R(t);
    }
  }
  else if (o.is("look")) {
    LocationFrame* f = o.A(0) == 1 ? &kept : g->frame();
    switch (o.A(1)) {
      case 1: num(e, f->lat, 10000, 400); break;
      case 2: num(e, f->lon, 10000, 400); break;
      case 3: num(e, f->dop_horiz, 100, 1000); break;
      case 4: num(e, f->dop_vert, 100, 1000); break;
      case 5: e.R((ll) (f->timestamp / 86400)); e.R((ll) (f->timestamp % 86400)); break;
      case 6: num(e, f->mag_bearing, 100, 1000); break;
      case 7: e.R(1); e.R((int32_t) f->altitude); break;
      case 8: e.R(1); e.R((int32_t) f->speed); break;
      default: e.R(f->sat_count);
    }
  }
  else if (o.is("dist")) {
    LocationFrame a, b;
    if (o.A(0) == 1) { a.lon = o.A(1) / 100.0; b.lon = o.A(2) / 100.0; } else { a.lat = o.A(1) / 100.0; b.lat = (o.A(0) == 3 ? 0 : o.A(2) / 100.0); a.lon = 77.5; b.lon = o.A(0) == 0 ? 77.5 : o.A(0) == 2 ? -102.5 : -12.5; }
    const ll x = GPSWrapper::haversineDistance(&a, &b), y = GPSWrapper::haversineDistance(&b, &a);
    e.R(x == y ? x : -77);
  }
  else if (o.is("print")) { StringBuilder t; g->printDebug(&t); e.R(0); }
  if (g) e.S(VI{(ll) g->sentencesParsed(), (ll) g->sentencesRejected(), calls, (ll) g->bufferAvailable()});
}
