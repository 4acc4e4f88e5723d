/* Conformance driver for TimeSeries. */
#include "vh.h"
#include <math.h>
#include "StringBuilder.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "TimeSeries/TimeSeries.h"

struct Face {
  virtual ~Face() {}
  virtual TimeSeriesBase* s() = 0;
  virtual int feed(ll x) = 0;
  virtual ll value() = 0;
  virtual int bulk(const VI& d) = 0;
  virtual int copy(uint32_t c, uint32_t f, bool abs, VI& out) = 0;
  virtual VI mem() = 0;
  virtual void stat(const std::string& what, Ev& e) = 0;
  virtual void become(TimeSeriesBase* x) = 0;
  virtual bool owns() = 0;
  virtual bool based() = 0;
};

static ll fold(double x) { return isfinite(x) ? (ll) llround(x) : -1; }

template <class T> struct Of : public Face {
  const T B; const ll base; T* buf = nullptr; TimeSeries<T>* ts = nullptr;
  Of(bool own, uint32_t n, ll b) : B((T) b), base(b) {
    if (own) ts = new TimeSeries<T>(n);
    else { buf = (T*) malloc(n ? n * sizeof(T) : 1); memset((void*) buf, 0x77, n ? n * sizeof(T) : 1); ts = new TimeSeries<T>(buf, n); }
  }
  ~Of() { delete ts; free(buf); }
  TimeSeriesBase* s() { return ts; }
  bool owns() { return !buf; }
  bool based() { return base != 0; }
  T in(ll x) { return (T) (B + (T) x); }
  ll out(T x) { return (ll) (T) (x - B); }
  int feed(ll x) { return ts->feedSeries(in(x)); }
  ll value() { return out(ts->value()); }
  int bulk(const VI& d) { for (size_t i = 0; i < d.size(); i++) ts->memPtr()[i] = in(d[i]); return ts->feedSeries(); }
  int copy(uint32_t c, uint32_t f, bool abs, VI& o) {
    T* x = (T*) malloc(c ? c * sizeof(T) : 1);
    const int r = (f == 0 && c % 2) ? ts->copyValues(x, c, abs) : ts->copyValueRange(x, c, f, abs);
    if (!r) for (uint32_t i = 0; i < c; i++) o.push_back(out(x[i]));
    free(x);
    return r;
  }
  VI mem() { VI v; if (ts->initialized()) for (uint32_t i = 0; i < ts->windowSize(); i++) v.push_back(zeroed(ts->memPtr()[i])); return v; }
  /* Memory that was wiped holds zeros of the type; reported as such. */
  ll zeroed(T x) { return (base && x == T(0)) ? 0 : out(x); }
  void stat(const std::string& what, Ev& e) {
    const double n = ts->windowSize();
    if (what == "minmax") { e.R(out(ts->minValue())); e.R(out(ts->maxValue())); }
    else if (what == "mean") e.R(fold((ts->mean() - (double) B) * n));
    else if (what == "rms") e.R(fold(ts->rms() * ts->rms() * n));
    else if (what == "stdev") e.R(fold(ts->stdev() * ts->stdev() * n * n));
    else if (what == "median") { const T m = ts->median(); e.R(fold(2 * (double) (T) (m - B))); }
    else if (what == "snr") { const double x = ts->snr(); e.R(isfinite(x) && ts->stdev() > 0 ? (ll) floor(100 * x) : -1); }
  }
  void become(TimeSeriesBase* x) { delete ts; free(buf); buf = nullptr; ts = (TimeSeries<T>*) x; }
};

static Face* f = nullptr;

static Face* make(int t, bool own, uint32_t n, ll b) {
  switch ((TCode) t) {
    case TCode::UINT8: return new Of<uint8_t>(own, n, b ? 200 : 0);
    case TCode::UINT16: return new Of<uint16_t>(own, n, b ? 65000 : 0);
    case TCode::UINT32: return new Of<uint32_t>(own, n, b ? 4000000000LL : 0);
    case TCode::UINT64: return new Of<uint64_t>(own, n, b ? (1LL << 40) : 0);
    case TCode::INT8: return new Of<int8_t>(own, n, b ? 70 : 0);
    case TCode::INT16: return new Of<int16_t>(own, n, b ? 32000 : 0);
    case TCode::INT32: return new Of<int32_t>(own, n, b ? (b > 0 ? 2000000000 : -2000000100) : 0);
    case TCode::INT64: return new Of<int64_t>(own, n, b ? (b > 0 ? (1LL << 40) : -(1LL << 40)) : 0);
    case TCode::FLOAT: return new Of<float>(own, n, 0);
    default: return new Of<double>(own, n, 0);
  }
}

static void probe(const std::string& s) {
  StringBuilder t; { Exact x(s); if (x.n) t.concat(x.p, (int) x.n); }
  C3PValue* v = C3PValue::deserialize(&t, TCode::CBOR);
  if (v) {
    TimeSeriesBase* b = nullptr;
    if (v->tcode() == TCode::TIMESERIES && 0 == v->get_as(&b) && b) {
      StringBuilder o; b->printSeries(&o);
      if (b->initialized()) {
        switch (b->tcode()) {
          case TCode::UINT8: { auto* x = (TimeSeries<uint8_t>*) b; x->feedSeries(1); x->value(); break; }
          case TCode::INT16: { auto* x = (TimeSeries<int16_t>*) b; x->feedSeries(1); x->value(); break; }
          case TCode::INT64: { auto* x = (TimeSeries<int64_t>*) b; x->feedSeries(1); x->value(); break; }
          case TCode::DOUBLE: { auto* x = (TimeSeries<double>*) b; x->feedSeries(1); x->value(); break; }
          default: break;
        }
      }
      StringBuilder c; b->serialize(&c, TCode::CBOR);
    }
    delete v;
  }
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) { delete f; f = make((int) o.A(0), o.A(1) != 0, (uint32_t) o.A(2), o.A(3)); e.R(0); }
  else if (o.is("probe")) { probe(o.str(0)); e.R(0); }
  else if (!f) e.R(-98);
  else if (o.is("init")) e.R(f->s()->init());
  else if (o.is("purge")) { if (!f->s()->initialized()) e.R(-99); else e.R(f->s()->purge()); }
  else if (o.is("window")) {
    if (!f->s()->initialized() && !f->owns()) e.R(-99);
    else { const int r = f->s()->windowSize((uint32_t) o.A(0)); e.R(r < 0 ? -1 : r); }
  }
  else if (o.is("feed")) e.R(f->feed(o.A(0)));
  else if (o.is("bulk")) {
    if (!f->s()->initialized()) { e.R(f->bulk(VI())); }
    else if (o.d.size() < 1 || o.d[0].size() != f->s()->windowSize()) e.R(-99);
    else e.R(f->bulk(o.d[0]));
  }
  else if (o.is("value")) { const bool full = f->s()->windowFull(); const ll x = f->value(); if (full) e.R(x); }
  else if (o.is("copy")) {
    if (!o.A(2) && o.A(1)) e.R(-99);
    else { VI v; const int r = f->copy((uint32_t) o.A(0), (uint32_t) o.A(1), o.A(2) != 0, v); e.R(r < 0 ? -1 : r); for (ll x : v) e.R(x); }
  }
  else if (o.is("which")) e.R((ll) f->s()->indexIsWhichSample((uint32_t) o.A(0)));
  else if (o.is("minmax") || o.is("mean")) { if (f->s()->windowFull()) f->stat(o.name, e); }
  else if (o.is("rms") || o.is("stdev") || o.is("median") || o.is("snr")) { if (f->s()->windowFull() && f->s()->windowSize() > 1 && !(f->based() && (o.is("rms") || o.is("snr")))) f->stat(o.name, e); }
  else if (o.is("clean")) { f->s()->markClean(); e.R(0); }
  else if (o.is("name")) { ExactZ s(o.str(0)); const int r = f->s()->name(s.n ? s.p : nullptr); e.R(r < 0 ? -1 : r); }
  else if (o.is("units")) { ExactZ s(o.str(0)); const int r = f->s()->units(s.n ? (SIUnit*) s.p : nullptr); e.R(r < 0 ? -1 : r); }
  else if (o.is("trip")) {
    if (!f->s()->windowFull()) e.R(-99);
    else {
      StringBuilder t;
      ll r = f->s()->serialize(&t, TCode::CBOR);
      if (r == 0) {
        C3PValue* v = C3PValue::deserialize(&t, TCode::CBOR);
        TimeSeriesBase* b = nullptr;
        if (!v) r = -2;
        else if (v->tcode() != TCode::TIMESERIES || v->get_as(&b) || !b) r = -3;
        else if (b->tcode() != f->s()->tcode()) r = -4;
        else if (t.length()) r = -5;
        else { f->become(b); v->reapValue(false); }
        delete v;
      }
      e.R(r);
    }
  }
  VI v;
  if (f) {
    TimeSeriesBase* s = f->s();
    v = VI{1, s->initialized(), s->windowFull(), s->windowSize(), s->totalSamples(), s->lastIndex(), s->initialized() ? s->dirty() : 0};
    e.S(v); e.S(f->mem());
    e.S(s->name(), strlen(s->name())); e.S(s->units(), strlen((char*) s->units()));
  }
  else { e.S(VI{0, 0, 0, 0, 0, 0, 0}); e.S(VI()); e.S(VI()); e.S(VI()); }
}
