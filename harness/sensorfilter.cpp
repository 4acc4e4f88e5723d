/* Conformance driver for SensorFilter and SensorFilter3. */
#include "vh.h"
#include <math.h>
#include "StringBuilder.h"
#include "TimeSeries/SensorFilter.h"

static const FilteringStrategy STRATS[3] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_AVG, FilteringStrategy::MOVING_MED};
static int scode(FilteringStrategy s) { for (int i = 0; i < 3; i++) if (STRATS[i] == s) return i; return -1; }
static ll near(double x) { return isfinite(x) ? (ll) llround(x) : -999999; }

struct Face {
  virtual ~Face() {}
  virtual SensorFilterBase* b() = 0;
  virtual int init() = 0;
  virtual int strat(FilteringStrategy s) = 0;
  virtual int feed(const VI& x) = 0;
  virtual int bulk(const VI& d) = 0;
  virtual void value(VI& o, double m) = 0;
  virtual void stat(const std::string& what, Ev& e) = 0;
  virtual VI mem() = 0;
  virtual void print() = 0;
  virtual double scale() = 0;
  bool owns = true; int dim = 1, unit = 0;
};

template <class T> struct Scalar : public Face {
  double U; T* buf = nullptr; SensorFilter<T>* f = nullptr;
  Scalar(double un, bool own, uint32_t n, FilteringStrategy s) : U(un) {
    owns = own;
    if (own) f = new SensorFilter<T>(n, s);
    else { buf = (T*) calloc(n ? n : 1, n ? sizeof(T) : 1); f = new SensorFilter<T>(buf, (int) n, s); }
  }
  ~Scalar() { delete f; free(buf); }
  T in(ll x) { return (T) (U >= 1 ? (T) ((T) x * (T) U) : (T) (x * U)); }
  ll out(T x, double m = 1) { return near(m * (double) x / U); }
  SensorFilterBase* b() { return f; }
  int init() { return f->init(); }
  int strat(FilteringStrategy s) { return f->setStrategy(s); }
  int feed(const VI& x) { return f->feedFilter(in(x[0])); }
  int bulk(const VI& d) { for (size_t i = 0; i < d.size(); i++) f->memPtr()[i] = in(d[i]); return f->feedFilter(); }
  void value(VI& o, double m) { const T v = f->value(); o.push_back(out(v, m)); }
  VI mem() { VI v; for (uint32_t i = 0; i < f->windowSize(); i++) v.push_back(out(f->memPtr()[i])); return v; }
  void print() { StringBuilder o; f->printFilter(&o); }
  double scale() { return U; }
  void stat(const std::string& what, Ev& e) {
    const double n = f->windowSize();
    if (what == "minmax") { e.R(out(f->minValue())); e.R(out(f->maxValue())); }
    else if (what == "mean") e.R(near(f->mean() * n / U));
    else if (what == "rms") e.R(near((f->rms() / U) * (f->rms() / U) * n));
    else if (what == "stdev") e.R(near((f->stdev() / U) * (f->stdev() / U) * n * n));
    else if (what == "median") e.R(out(f->median(), 2));
    else if (what == "snr") { const double x = f->snr(); e.R(isfinite(x) && f->stdev() > 0 ? (ll) floor(100 * x * x) : -1); }
  }
};

template <class T> struct Vector : public Face {
  double U; Vector3<T>* buf = nullptr; SensorFilter3<T>* f = nullptr;
  Vector(double un, bool own, uint32_t n, FilteringStrategy s) : U(un) {
    owns = true; dim = 3; (void) own;    // a vector filter can only have its own memory
    f = new SensorFilter3<T>(n, s);
  }
  ~Vector() { delete f; free((void*) buf); }
  T in(ll x) { return (T) (U >= 1 ? (T) ((T) x * (T) U) : (T) (x * U)); }
  ll out(T x, double m = 1) { return near(m * (double) x / U); }
  void all(VI& o, Vector3<T>* v, double m = 1) { o.push_back(out(v->x, m)); o.push_back(out(v->y, m)); o.push_back(out(v->z, m)); }
  void all64(Ev& e, Vector3f64* v, double m, int p) { const double c[3] = {v->x / U, v->y / U, v->z / U}; for (double x : c) e.R(near((p == 2 ? x * x : x) * m)); }
  SensorFilterBase* b() { return f; }
  int init() { return f->init(); }
  int strat(FilteringStrategy s) { return f->setStrategy(s); }
  int feed(const VI& x) { if (x[0] & 1) { Vector3<T> v(in(x[0]), in(x[1]), in(x[2])); return f->feedFilter(&v); } return f->feedFilter(in(x[0]), in(x[1]), in(x[2])); }
  int bulk(const VI& d) { for (size_t i = 0; i < d.size() / 3; i++) f->memPtr()[i](in(d[3 * i]), in(d[3 * i + 1]), in(d[3 * i + 2])); return f->feedFilter(); }
  void value(VI& o, double m) { all(o, f->value(), m); }
  VI mem() { VI v; for (uint32_t i = 0; i < f->windowSize(); i++) all(v, f->memPtr() + i); return v; }
  void print() { StringBuilder o; f->printFilter(&o); }
  double scale() { return U; }
  void stat(const std::string& what, Ev& e) {
    const double n = f->windowSize();
    if (what == "minmax") { VI v; all(v, f->minValue()); all(v, f->maxValue()); for (ll x : v) e.R(x); }
    else if (what == "mean") all64(e, f->mean(), n, 1);
    else if (what == "rms") all64(e, f->rms(), n, 2);
    else if (what == "stdev") all64(e, f->stdev(), n * n, 2);
  }
};

/* Reads one item of CBOR: numbers, text, and the heads of arrays and maps. */
struct Item { int major = -1; uint64_t n = 0; double num = 0; std::string s; };
static bool item(StringBuilder* b, int& at, Item& i) {
  if (at >= b->length()) return false;
  const int h = b->byteAt(at++), mi = h & 31; i.major = h >> 5;
  const int w = mi < 24 ? 0 : mi == 24 ? 1 : mi == 25 ? 2 : mi == 26 ? 4 : mi == 27 ? 8 : -1;
  if (w < 0 || at + w > b->length()) return false;
  i.n = mi; if (w) { i.n = 0; for (int k = 0; k < w; k++) i.n = (i.n << 8) | b->byteAt(at++); }
  if (i.major == 0) i.num = (double) i.n;
  else if (i.major == 1) i.num = -1.0 - (double) i.n;
  else if (i.major == 3) { if (at + (int) i.n > b->length()) return false; i.s.clear(); for (uint64_t k = 0; k < i.n; k++) i.s.push_back((char) b->byteAt(at++)); }
  else if (i.major == 7) {
    if (w == 4) { uint32_t x = (uint32_t) i.n; float y; memcpy(&y, &x, 4); i.num = y; }
    else if (w == 8) { double y; memcpy(&y, &i.n, 8); i.num = y; }
    else return false;
  }
  return true;
}

static Face* f = nullptr;
static bool sure = true;

static Face* make(int dim, int t, int u, bool own, uint32_t n, FilteringStrategy s) {
  const double B16 = 256, B32 = 1048576, F = 1.0 / 1024;
  if (dim == 3) {
    return new Vector<float>(u ? F : 1, own, n, s);
  }
  switch ((TCode) t) {
    case TCode::UINT8: return new Scalar<uint8_t>(1, own, n, s);
    case TCode::UINT16: return new Scalar<uint16_t>(u ? B16 : 1, own, n, s);
    case TCode::UINT32: return new Scalar<uint32_t>(u ? B32 : 1, own, n, s);
    case TCode::INT8: return new Scalar<int8_t>(1, own, n, s);
    case TCode::INT16: return new Scalar<int16_t>(u ? B16 : 1, own, n, s);
    case TCode::INT32: return new Scalar<int32_t>(u ? B32 : 1, own, n, s);
    case TCode::FLOAT: return new Scalar<float>(u ? F : 1, own, n, s);
    default: return new Scalar<double>(u ? F : 1, own, n, s);
  }
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    delete f; sure = true;
    f = make((int) o.A(0), (int) o.A(1), (int) o.A(2), o.A(3) != 0, (uint32_t) o.A(4), STRATS[o.A(5)]);
    f->unit = (int) o.A(2); e.R(0);
  }
  else if (!f) e.R(-98);
  else {
    SensorFilterBase* b = f->b();
    const bool ini = b->initialized();
    const bool ready = ini && b->windowFull() && b->windowSize() > 0;
    const bool ok2 = ready && b->windowSize() > 1;
    if (o.is("init")) { if (ini) e.R(-99); else e.R(f->init()); }
    else if (o.is("purge")) { if (!ini) e.R(-99); else { e.R(b->purge()); sure = true; } }
    else if (o.is("window")) {
      if (!ini) e.R(-99);
      else {
        const bool refuse = !f->owns && (uint32_t) o.A(0) != b->windowSize();
        const int r = b->windowSize((uint32_t) o.A(0)); e.R(r < 0 ? -1 : r); if (!refuse && (o.A(0) || r < 0)) sure = true;
      }
    }
    else if (o.is("feed")) {
      const int r = f->feed(o.a); e.R(r);
      if (r >= 0) sure = (b->strategy() != FilteringStrategy::MOVING_MED || b->windowFull() || b->windowSize() == 0);
    }
    else if (o.is("bulk")) {
      if (!ini) e.R(f->bulk(VI()));
      else if (o.d.size() < 1 || b->windowSize() == 0 || o.d[0].size() != b->windowSize() * f->dim) e.R(-99);
      else e.R(f->bulk(o.d[0]));
    }
    else if (o.is("value")) { VI v; f->value(v, b->strategy() == FilteringStrategy::MOVING_AVG ? 1 : 2); e.R(sure); if (sure) for (ll x : v) e.R(x); }
    else if (o.is("strat")) { const int r = f->strat(STRATS[o.A(0)]); e.R(r); if (!r) sure = true; }
    else if (o.is("minmax") || o.is("mean")) { if (ready) f->stat(o.name, e); }
    else if (o.is("median")) { if (ready && f->dim == 1) f->stat(o.name, e); }
    else if (o.is("rms") || o.is("stdev")) { if (ok2) f->stat(o.name, e); }
    else if (o.is("snr")) { if (ok2 && f->dim == 1 && !f->unit) f->stat(o.name, e); }
    else if (o.is("name")) { ExactZ s(o.str(0)); const int r = b->name(s.n ? s.p : nullptr); e.R(r < 0 ? -1 : r); }
    else if (o.is("units")) { ExactZ s(o.str(0)); const int r = b->units(s.n ? (SIUnit*) s.p : nullptr); e.R(r < 0 ? -1 : r); }
    else if (o.is("ser")) {
      if (!ini) e.R(-99);
      else {
        StringBuilder x; const int r = b->serialize(&x, TCode::CBOR); e.R(r);
        int at = 0; Item i; bool good = item(&x, at, i) && i.major == 3 && item(&x, at, i) && i.major == 5;
        ll win = -1, tot = -1, named = 0; VI dat; std::string st;
        const ll pairs = (ll) i.n;
        for (ll p = 0; good && p < pairs; p++) {
          Item key, v; good = item(&x, at, key) && key.major == 3 && item(&x, at, v);
          if (key.s == "win_sz") win = (ll) v.n;
          else if (key.s == "total") tot = (ll) v.n;
          else if (key.s == "strat") st = v.s;
          else if (key.s == "name") named = (v.major == 3 && v.s == b->name());
          else if (key.s == "dat") {
            good = good && v.major == 4;
            for (uint64_t k = 0; good && k < v.n; k++) {
              Item y; good = item(&x, at, y);
              if (good && y.major == 4) { for (uint64_t c = y.n; good && c > 0; c--) { good = item(&x, at, y); dat.push_back(near(y.num / f->scale())); } }
              else dat.push_back(near(y.num / f->scale()));
            }
          }
        }
        e.R(good && at == x.length()); e.R(win); e.R(tot); e.R(named); e.R(st == getFilterStr(b->strategy()));
        for (ll y : dat) e.R(y);
      }
    }
    else if (o.is("print")) { f->print(); e.R(0); }
  }
  if (f) {
    SensorFilterBase* b = f->b();
    e.S(VI{1, b->initialized(), (ll) b->windowFull(), b->windowSize(), b->totalSamples(), b->lastIndex(), b->dirty(), scode(b->strategy())});
    e.S(b->initialized() ? f->mem() : VI());
    e.S(b->name(), strlen(b->name()));
    const char* u = (const char*) b->units(); e.S(u ? u : "", u ? strlen(u) : 0);
  }
  else { e.S(VI{0, 0, 0, 0, 0, 0, 0, 0}); e.S(VI()); e.S(VI()); e.S(VI()); }
}
