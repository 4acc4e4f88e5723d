/* Values to and from the nodes of the CborValue specification. */
#include "vh.h"
#include <new>
#include <deque>
#include "C3PValue/KeyValuePair.h"
#include "C3PValue/C3PValue.h"
#include "StringBuilder.h"
#include "Vector3.h"


static void append(VI& o, const VI& x) { o.insert(o.end(), x.begin(), x.end()); }
static VI list(C3PValue* v, ll* count);

static VI content(C3PValue* v) {          // class and content of a value
  VI c;
  ll k = 0;
  switch (v->tcode()) {
    case TCode::UINT8: case TCode::UINT16: case TCode::UINT32: case TCode::UINT64: {
      uint64_t x = 0; k = 1; c.push_back(0);
      if (v->get_as(&x)) return VI{-1};
      append(c, to_limbs(x)); break; }
    case TCode::INT8: case TCode::INT16: case TCode::INT32: case TCode::INT64: {
      int64_t x = 0; k = 1;
      if (v->get_as(&x)) return VI{-1};
      c.push_back(x < 0);
      append(c, to_limbs(x < 0 ? (uint64_t) -(x + 1) : (uint64_t) x)); break; }
    case TCode::BOOLEAN: k = 4; c.push_back(v->get_as_bool()); break;
    case TCode::NONE: k = 5; break;
    case TCode::FLOAT: { float f = 0; k = 6; v->get_as(&f); uint32_t x; memcpy(&x, &f, 4); append(c, to_limbs(x, 2)); break; }
    case TCode::DOUBLE: { double f = 0; k = 7; v->get_as(&f); uint64_t x; memcpy(&x, &f, 8); append(c, to_limbs(x)); break; }
    case TCode::BINARY: {
      uint8_t* p = nullptr; uint32_t n = 0; k = 2;
      if (v->get_as(&p, &n)) return VI{-2};
      for (uint32_t i = 0; i < n; i++) c.push_back(p[i]);
      break; }
    case TCode::STR: {
      char* s = nullptr; k = 3;
      if (v->get_as(&s) || !s) return VI{-3};
      for (; *s; s++) c.push_back((uint8_t) *s);
      break; }
    case TCode::KVP: {
      KeyValuePair* n = nullptr; k = 8;
      if (v->get_as(&n) || !n) return VI{-4};
      ll cnt = 0;
      c = list(n, &cnt);
      break; }
    case TCode::VECT_3_FLOAT: case TCode::VECT_3_DOUBLE: case TCode::VECT_3_INT8: case TCode::VECT_3_UINT8:
    case TCode::VECT_3_INT16: case TCode::VECT_3_UINT16: case TCode::VECT_3_INT32: case TCode::VECT_3_UINT32: {
      k = 9; c.push_back((ll) v->tcode());
      uint8_t raw[32]; memset(raw, 0xEE, sizeof(raw)); int rc = -1, n = 0;
      switch (v->tcode()) {
        #define GET(T) { T x; rc = v->get_as(&x); auto a = x.x, b = x.y, d = x.z; n = 3 * sizeof(a); memcpy(raw, &a, sizeof(a)); memcpy(raw + sizeof(a), &b, sizeof(a)); memcpy(raw + 2 * sizeof(a), &d, sizeof(a)); break; }
        case TCode::VECT_3_FLOAT: GET(Vector3f)
        case TCode::VECT_3_DOUBLE: GET(Vector3f64)
        case TCode::VECT_3_INT8: GET(Vector3i8)
        case TCode::VECT_3_UINT8: GET(Vector3u8)
        case TCode::VECT_3_INT16: GET(Vector3i16)
        case TCode::VECT_3_UINT16: GET(Vector3u16)
        case TCode::VECT_3_INT32: GET(Vector3i32)
        default: GET(Vector3u32)
      }
      if (rc) return VI{-5};
      for (int i = 0; i < n; i++) c.push_back(raw[i]);
      break; }
    default: return VI{-9};
  }
  VI r{k, (ll) c.size()};
  append(r, c);
  return r;
}

static VI list(C3PValue* v, ll* count) {
  VI o;
  for (; v; v = v->nextValue()) {
    (*count)++;
    if (v->has_key()) {
      const char* k = ((KeyValuePair*) v)->getKey();
      o.push_back(1); o.push_back(k ? (ll) strlen(k) : -1);
      if (k) for (; *k; k++) o.push_back((uint8_t) *k);
    }
    else { o.push_back(0); o.push_back(0); }
    append(o, content(v));
  }
  return o;
}

/* building from nodes */
struct Arena {
  std::deque<std::string> strs;
  std::deque<KeyValuePair*> kvps;
  std::deque<StringBuilder*> sbs;
  std::deque<void*> mem;
  ~Arena() { for (auto* k : kvps) delete k; for (auto* s : sbs) delete s; for (void* m : mem) free(m); }
};

template <class T> static C3PValue* num(T x, const char* key, bool keyed) { return keyed ? (C3PValue*) new KeyValuePair(key, x) : new C3PValue(x); }
template <class T, class E> static C3PValue* vec(const VI& p, size_t at, const char* key, bool keyed, Arena& a) {
  E e[3]; uint8_t raw[sizeof(e)];
  for (size_t i = 0; i < sizeof(e); i++) raw[i] = at + i < p.size() ? (uint8_t) p[at + i] : 0;
  memcpy(e, raw, sizeof(e));
  T* t = (T*) malloc(sizeof(T));
  new (t) T(e[0], e[1], e[2]);
  a.mem.push_back(t);
  return keyed ? (C3PValue*) new KeyValuePair(key, t) : new C3PValue(t);
}

static KeyValuePair* pairs(const VI& f, size_t at, size_t end, Arena& a);

static C3PValue* build(const VI& n, size_t at, size_t* next, Arena& a) {
  #define G(i) ((i) < n.size() ? n[i] : 0)
  const bool keyed = G(at) == 1;
  const size_t kl = (size_t) G(at + 1);
  std::string key;
  for (size_t i = 0; i < kl && at + 2 + i < n.size(); i++) key.push_back((char) n[at + 2 + i]);
  a.strs.push_back(key);
  const char* k = a.strs.back().c_str();
  const size_t c0 = at + 4 + kl, len = (size_t) G(at + 3 + kl);
  const VI p(n.begin() + (c0 < n.size() ? c0 : n.size()), n.begin() + (c0 + len < n.size() ? c0 + len : n.size()));
  *next = c0 + len;
  switch (G(at + 2 + kl)) {
    case 1: {
      const bool neg = p.size() && p[0];
      const uint64_t m = limbs64(p, 1);
      const int64_t s = neg ? -1 - (int64_t) m : (int64_t) m;
      // a type that can hold it, chosen by the number
      std::vector<int> fit;
      if (!neg) { if (m < 256) fit.push_back(1); if (m < 65536) fit.push_back(2); if (m <= UINT32_MAX) fit.push_back(3); fit.push_back(4); }
      if (m <= INT8_MAX) fit.push_back(6); if (m <= INT16_MAX) fit.push_back(7); if (m <= INT32_MAX) fit.push_back(8); if (m <= INT64_MAX) fit.push_back(9);
      switch (fit[(m + (m >> 8) + (m >> 16) + kl) % fit.size()]) {
        case 1: return num((uint8_t) m, k, keyed);
        case 2: return num((uint16_t) m, k, keyed);
        case 3: return num((uint32_t) m, k, keyed);
        case 4: return num((uint64_t) m, k, keyed);
        case 6: return num((int8_t) s, k, keyed);
        case 7: return num((int16_t) s, k, keyed);
        case 8: return num((int32_t) s, k, keyed);
        default: return num((int64_t) s, k, keyed);
      }
    }
    case 2: {
      uint8_t* m = (uint8_t*) malloc(p.size() ? p.size() : 1); a.mem.push_back(m);
      for (size_t i = 0; i < p.size(); i++) m[i] = (uint8_t) p[i];
      return keyed ? (C3PValue*) new KeyValuePair(k, m, p.size()) : new C3PValue(m, p.size()); }
    case 3: {
      std::string s; for (ll x : p) s.push_back((char) x);
      a.strs.push_back(s);
      if ((s.size() + kl) % 2 || s.empty()) return keyed ? (C3PValue*) new KeyValuePair(k, a.strs.back().c_str()) : new C3PValue(a.strs.back().c_str());
      StringBuilder* b = new StringBuilder(); a.sbs.push_back(b);
      const size_t h = s.size() / 2;         // in two fragments
      if (h) b->concat((uint8_t*) &s[0], h);
      b->concat((uint8_t*) &s[h], s.size() - h);
      return keyed ? (C3PValue*) new KeyValuePair(k, b) : new C3PValue(b); }
    case 4: return num((bool) (p.size() && p[0]), k, keyed);
    case 6: { uint32_t x = (uint32_t) limbs64(p); float f; memcpy(&f, &x, 4); return num(f, k, keyed); }
    case 7: { uint64_t x = limbs64(p); double f; memcpy(&f, &x, 8); return num(f, k, keyed); }
    case 8: {
      KeyValuePair* in = pairs(p, 0, p.size(), a);
      if (!in) return nullptr;
      a.kvps.push_back(in);
      return keyed ? (C3PValue*) new KeyValuePair(k, in) : new C3PValue(in); }
    case 9:
      switch (p.size() ? p[0] : 0) {
        case 56: return vec<Vector3f, float>(p, 1, k, keyed, a);
        case 57: return vec<Vector3f64, double>(p, 1, k, keyed, a);
        case 58: return vec<Vector3i8, int8_t>(p, 1, k, keyed, a);
        case 59: return vec<Vector3u8, uint8_t>(p, 1, k, keyed, a);
        case 60: return vec<Vector3i16, int16_t>(p, 1, k, keyed, a);
        case 61: return vec<Vector3u16, uint16_t>(p, 1, k, keyed, a);
        case 62: return vec<Vector3i32, int32_t>(p, 1, k, keyed, a);
        case 63: return vec<Vector3u32, uint32_t>(p, 1, k, keyed, a);
      }
      return nullptr;
  }
  return nullptr;
}

static KeyValuePair* pairs(const VI& f, size_t at, size_t end, Arena& a) {
  KeyValuePair* first = nullptr;
  while (at < end) {
    size_t next = end;
    C3PValue* v = build(f, at, &next, a);
    if (!v) break;
    if (!first) first = (KeyValuePair*) v; else first->link(v, true);
    at = next;
  }
  return first;
}

static std::string all(StringBuilder* s) {
  std::string x((size_t) s->length(), 0);
  if (x.size()) s->copyToBuffer((uint8_t*) &x[0], x.size());
  return x;
}

