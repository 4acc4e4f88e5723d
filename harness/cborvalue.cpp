/* Conformance driver for values in CBOR (CborValue). */
#include "cborkit.h"

static StringBuilder* sb = nullptr;

static VI decode(StringBuilder* from, bool consume) {
  VI r;
  C3PValueDecoder dec(from);
  C3PValue* v = dec.next(consume);
  if (!v) { r.push_back(0); return r; }
  ll n = 0;
  VI l = list(v, &n);
  r.push_back(1); r.push_back(n);
  append(r, l);
  delete v;
  return r;
}

static ll probe(const std::string& s, int frag, bool consume) {
  ll bad = 0;
  const ll h0 = heap_now();
  {
    StringBuilder t;
    for (size_t i = 0; i < s.size(); i += frag) { Exact e(s.substr(i, frag)); t.concat(e.p, e.n); }
    C3PValueDecoder dec(&t);
    C3PValue* v = dec.next(consume);
    if (!v && !consume && all(&t) != s) bad = 2;
    if (v) delete v;
  }
  if (heap_now() != h0) bad = 1;
  return bad;
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) { delete sb; sb = new StringBuilder(); }
  else if (o.is("feed")) { Exact b(o.str(0)); if (b.n) sb->concat(b.p, b.n); }
  else if (o.is("next")) {
    const std::string s = all(sb);
    VI first = decode(sb, o.A(0));
    const std::string rest = all(sb);
    for (ll x : first) e.R(x);
    // what is left is the end of what was there, and no memory is lost
    if (rest.size() > s.size() || s.compare(s.size() - rest.size(), rest.size(), rest)) e.R(-77);
    if (probe(s, 3, o.A(0))) e.R(-78);
    if (o.A(0) == 0) {           // the static entrance does the same
      StringBuilder t; { Exact b(s); if (b.n) t.concat(b.p, b.n); }
      C3PValue* v = C3PValue::deserialize(&t, TCode::CBOR);
      VI again{0};
      if (v) { ll n = 0; VI l = list(v, &n); again = VI{1, n}; append(again, l); delete v; }
      if (again != first || all(&t) != rest) e.R(-79);
    }
  }
  else if (o.is("probe")) {
    const std::string s = o.str(0);
    ll x = probe(s, 1000000, false);
    if (!x) x = probe(s, 1, false);
    if (!x) x = probe(s, 5, true);
    e.R(x);
  }
  else if (o.is("ser")) {
    VI all_nodes; for (auto& n : o.d) append(all_nodes, n);
    VI out;
    const bool keyed = all_nodes.size() && all_nodes[0] == 1;
    ll h0 = 0;
    for (int pass = 0; pass < 2; pass++) {
      if (pass) h0 = heap_now();
      {
      Arena a;
      size_t next = 0;
      C3PValue* v = keyed ? (C3PValue*) pairs(all_nodes, 0, all_nodes.size(), a) : build(all_nodes, 0, &next, a);
      StringBuilder t;
      t.concat((char*) "Q");
      const int8_t rc = v ? v->serialize(&t, TCode::CBOR) : -9;
      const std::string s = all(&t);
      if (!pass) {
        out.push_back(rc);
        if (s.empty() || s[0] != 'Q') out.push_back(-77);
        for (size_t i = 1; i < s.size(); i++) out.push_back((uint8_t) s[i]);
      }
      if (v) delete v;
      }
    }
    if (heap_now() != h0) out.push_back(-78);
    for (ll x : out) e.R(x);
  }
  e.S(VI{sb ? sb->length() : 0});
}
