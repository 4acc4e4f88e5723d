/* Conformance driver for enumerated definitions and configuration records (ConfRec). */
#include "vh.h"
#include "Storage/RecordTypes/ConfRecord.h"

enum class K : uint16_t {};
typedef EnumDef<K> D;
typedef EnumDefList<K> L;

static std::vector<char*> names;
static D* defs = nullptr;
static size_t count = 0;
static L* list = nullptr;
static ConfRecordValidation<K>* rec = nullptr;

static bool num(int t) { return (t >= 1 && t <= 4) || (t >= 6 && t <= 9) || (t >= 11 && t <= 13); }
static int width(int t) { return t == 1 || t == 6 || t == 11 ? 1 : t == 2 || t == 7 ? 2 : t == 3 || t == 8 || t == 12 ? 4 : 8; }
static void limbs(Ev& e, uint64_t x) { for (int i = 0; i < 4; i++) e.R((int) ((x >> (16 * i)) & 0xffff)); }
static void limbsS(VI& e, uint64_t x) { for (int i = 0; i < 4; i++) e.push_back((int) ((x >> (16 * i)) & 0xffff)); }

static void wipe() {
  delete rec; rec = nullptr;
  delete list; list = nullptr;
  for (size_t i = 0; i < count; i++) defs[i].~D();
  free(defs); defs = nullptr; count = 0;
  for (char* n : names) free(n);
  names.clear();
}
static bool ok_conf() {
  bool some = false;
  for (size_t i = 0; i < count; i++) {
    if (!(defs[i].FLAGS & 2)) some = true;
    for (size_t j = 0; j < i; j++) if (0 == strcasecmp(names[i], names[j])) return false;
  }
  return some;
}
template <class X> static int put(const Op& o, uint64_t x, const char* key) {
  X v; memcpy(&v, &x, sizeof(X));
  return o.A(0) == 1 ? rec->setConf((K) o.A(1), v) : ((ConfRecord*) rec)->setConf(key, v);
}
template <class X> static int take(const Op& o, uint64_t& x, const char* key) {
  X* v = (X*) malloc(sizeof(X));    // exactly as large as the type
  memset((void*) v, 0, sizeof(X));
  const int r = o.A(0) == 1 ? rec->getConf((K) o.A(1), v) : ((ConfRecord*) rec)->getConf(key, v);
  x = 0; memcpy(&x, v, sizeof(X)); free(v);
  return r;
}

static void run(const Op& o, Ev& e) {
  if (o.is("list")) {
    wipe();
    count = o.d.size();
    defs = (D*) malloc(count * sizeof(D));
    for (size_t i = 0; i < count; i++) {
      std::string s = o.str(i);
      char* n = (char*) malloc(s.size() + 1); memcpy(n, s.c_str(), s.size() + 1);
      names.push_back(n);
      new (defs + i) D((K) o.A(3 * i), n, (uint8_t) o.A(3 * i + 1), (uint8_t) o.A(3 * i + 2));
    }
    list = new L(defs, count, "conf");
    rec = new ConfRecordValidation<K>(7, list);
    e.R(0);
  }
  else if (!list) e.R(-98);
  else if (o.is("valid")) e.R(list->enumValid((K) o.A(0)));
  else if (o.is("str")) { for (const char* p = list->enumStr((K) o.A(0)); *p; p++) e.R((uint8_t) *p); }
  else if (o.is("extra")) e.R(list->enumExtra((K) o.A(0)));
  else if (o.is("def")) { const D* d = list->enumDef((K) o.A(0)); e.R(d ? (int) (d - defs) + 1 : 0); }
  else if (o.is("keys")) {
    StringBuilder sb; list->exportKeys(&sb);
    e.R((int) list->exportCount());
    for (int i = 0; i < sb.count(); i++) { const char* p = sb.position(i); e.R((int) strlen(p)); for (; *p; p++) e.R((uint8_t) *p); }
  }
  else if (o.is("bystr")) {
    ExactZ s(o.str(0)); int8_t found = 9;
    const D* d = list->getEnumDefByStr(s.p);
    const K v = list->getEnumByStr(s.p, &found);
    e.R(d ? (int) (d - defs) + 1 : 0); e.R(found); e.R((int) v);
  }
  else if (!ok_conf()) e.R(-99);
  else if (o.is("alloc")) { e.R(rec->allocated(o.A(0) == 1)); e.R((int) rec->keyCount()); }
  else if (o.is("set")) {
    const uint64_t x = limbs64(o.d[0]); ExactZ key(o.str(1));
    switch (o.A(2)) {
      case 1: e.R(put<uint8_t>(o, x, key.p)); break;
      case 2: e.R(put<uint16_t>(o, x, key.p)); break;
      case 3: e.R(put<uint32_t>(o, x, key.p)); break;
      case 4: e.R(put<uint64_t>(o, x, key.p)); break;
      case 6: e.R(put<int8_t>(o, x, key.p)); break;
      case 7: e.R(put<int16_t>(o, x, key.p)); break;
      case 8: e.R(put<int32_t>(o, x, key.p)); break;
      case 9: e.R(put<int64_t>(o, x, key.p)); break;
      case 11: e.R(put<bool>(o, x, key.p)); break;
      case 12: e.R(put<float>(o, x, key.p)); break;
      default: e.R(put<double>(o, x, key.p)); break;
    }
  }
  else if (o.is("get")) {
    uint64_t x = 0; ExactZ key(o.str(0)); int r;
    switch (o.A(2)) {
      case 1: r = take<uint8_t>(o, x, key.p); break;
      case 2: r = take<uint16_t>(o, x, key.p); break;
      case 3: r = take<uint32_t>(o, x, key.p); break;
      case 4: r = take<uint64_t>(o, x, key.p); break;
      case 6: r = take<int8_t>(o, x, key.p); break;
      case 7: r = take<int16_t>(o, x, key.p); break;
      case 8: r = take<int32_t>(o, x, key.p); break;
      case 9: r = take<int64_t>(o, x, key.p); break;
      case 11: r = take<bool>(o, x, key.p); break;
      case 12: r = take<float>(o, x, key.p); break;
      default: r = take<double>(o, x, key.p); break;
    }
    e.R(r); if (0 == r) limbs(e, x);
  }
  else if (o.is("print")) {
    StringBuilder sb; rec->printConfRecord(&sb);
    std::string t; for (int i = 0; i < sb.length(); i++) t.push_back((char) sb.byteAt(i));
    // every line of a key: "name (TYPE)\t= value"
    std::vector<std::string> ks; size_t p = 0;
    while (p < t.size()) {
      size_t q = t.find('\n', p); if (q == std::string::npos) q = t.size();
      std::string ln = t.substr(p, q - p); p = q + 1;
      const size_t m = ln.find(")\t= "); if (m == std::string::npos) continue;
      const size_t b = ln.rfind(" (", m); if (b == std::string::npos) continue;
      ln = ln.substr(0, b); const size_t s = ln.find_first_not_of(' ');
      ks.push_back(s == std::string::npos ? "" : ln.substr(s));
    }
    e.R((int) ks.size());
    for (auto& k : ks) { e.R((int) k.size()); for (char c : k) e.R((uint8_t) c); }
  }
}

void vh_exec(const Op& o, Ev& e) {
  run(o, e);
  const bool g = rec && ok_conf() && rec->allocated();
  e.S(VI{(ll) count, (ll) g});
  VI all;
  if (g) for (size_t i = 0; i < count; i++) {
    if ((defs[i].FLAGS & 2) || !num(defs[i].CONTEXT)) continue;
    C3PValue* v = rec->getKVP()->valueWithKey(names[i]);
    uint8_t* m = (uint8_t*) malloc(width(defs[i].CONTEXT)); memset(m, 0, width(defs[i].CONTEXT));
    const int r = v ? v->get_as((TCode) defs[i].CONTEXT, m) : -1;
    uint64_t x = 0; if (0 == r) memcpy(&x, m, width(defs[i].CONTEXT)); free(m);
    if (0 == r) limbsS(all, x); else all.push_back(-98);
  }
  e.S(all);
}
