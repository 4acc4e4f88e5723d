#include "vh.h"
#include "CppPotpourri.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "StringBuilder.h"
#include <map>
#include <list>

struct World {
  std::vector<C3PValue*> heads;
  std::map<C3PValue*, int> id;
  std::list<std::string> strs;              // borrowed texts, kept alive until the end
  std::list<std::vector<uint8_t> > blocks;
  std::list<StringBuilder*> sbs;
  int made = 0;
};
static World* w = nullptr;
static ll base = 0;

static const char* keep(const std::string& s) { w->strs.push_back(s); return w->strs.back().c_str(); }
static uint8_t* keepb(const std::string& s) { w->blocks.push_back(std::vector<uint8_t>(s.begin(), s.end())); w->blocks.back().push_back(0); return w->blocks.back().data(); }
static StringBuilder* mksb(const std::string& s) {
  StringBuilder* b = new StringBuilder();
  for (size_t i = 0; i < s.size(); i += 3) { std::string p = s.substr(i, 3); b->concat((uint8_t*) p.data(), (int) p.size()); }
  return b;
}
static C3PValue* at(ll i, ll p) { C3PValue* v = w->heads[i - 1]; while (--p > 0) v = v->nextValue(); return v; }
static int idof(C3PValue* v) { if (!v) return 0; auto k = w->id.find(v); return k == w->id.end() ? -99 : k->second; }
static int tyof(C3PValue* v) {
  switch (v->tcode()) {
    case TCode::INT32: return 1; case TCode::STR: return 2; case TCode::BINARY: return 3; case TCode::STR_BUILDER: return 4; default: return 5;
  }
}
static void val(C3PValue* v, Ev& e) {
  switch (v->tcode()) {
    case TCode::INT32: { int32_t x = 0; if (v->get_as(&x)) e.R(-1); for (int i = 0; i < 4; i++) e.R((x >> (8 * i)) & 0xFF); } break;
    case TCode::STR: { const char* s = nullptr; if (v->get_as(&s)) e.R(-1); for (; s && *s; s++) e.R((uint8_t) *s); } break;
    case TCode::BINARY: {
        uint8_t* p = nullptr; uint32_t l = 0; if (v->get_as(&p, &l)) e.R(-1);
        C3PBinBinder b; b.buf = nullptr; b.len = 0; if (v->get_as(TCode::BINARY, &b) || b.buf != p || b.len != l) e.R(-2);
        for (uint32_t i = 0; i < l; i++) e.R(p[i]);
      } break;
    case TCode::STR_BUILDER: {
        StringBuilder* s = nullptr; if (v->get_as(&s)) e.R(-1);
        StringBuilder c; StringBuilder* pc = &c; if (v->get_as(&pc)) e.R(-1);
        if (!s || s->length() != c.length()) e.R(-2);
        for (int i = 0; i < c.length(); i++) e.R(c.byteAt(i));
      } break;
    case TCode::VECT_3_INT16: { Vector3i16 x; if (v->get_as(&x)) e.R(-1); e.R(x.x); e.R(x.y); e.R(x.z); } break;
    default: e.R(-3);
  }
}

void vh_exec(const Op& o, Ev& e) {
  if (!w) { base = heap_now(); w = new World(); }
  if (!o.is("new") && !o.is("end")) {       // operations on places that do not exist
    const bool two = o.is("link") || o.is("unlinkmiss") || o.is("dropmiss");
    const bool pos = !two && !o.is("del") && !o.is("idx") && !o.is("find") && !o.is("keys");
    ll len = 0;
    bool ok = o.A(0) >= 1 && o.A(0) <= (ll) w->heads.size();
    if (ok) for (C3PValue* v = w->heads[o.A(0) - 1]; v; v = v->nextValue()) len++;
    ok &= !two || (o.A(1) >= 1 && o.A(1) <= (ll) w->heads.size());
    ok &= !pos || (o.A(1) >= 1 && o.A(1) <= len);
    if (!ok) { e.R(-12345); return; }
  }
  if (o.is("new")) {
    const std::string key = o.str(0), s = o.str(1);
    const int kind = (int) o.A(0), ty = (int) o.A(1);
    C3PValue* v = nullptr;
    Vector3i16 vec;
    int32_t num = 0;
    if (ty == 1) for (int i = 0; i < 4; i++) num |= (int32_t) ((uint32_t) (uint8_t) s[i] << (8 * i));
    if (ty == 5) { vec.x = (int16_t) o.d[1][0]; vec.y = (int16_t) o.d[1][1]; vec.z = (int16_t) o.d[1][2]; }
    uint8_t* blk = nullptr;
    StringBuilder* sb = nullptr;
    if (ty == 3) { if (o.A(2)) { blk = (uint8_t*) malloc(s.size() + 1); memcpy(blk, s.data(), s.size()); } else blk = keepb(s); }
    if (ty == 4) { sb = mksb(s); if (!o.A(2)) w->sbs.push_back(sb); }
    if (kind == 0) {
      if (ty == 1) v = new C3PValue(num);
      else if (ty == 2) { if (o.A(2)) { ExactZ t(s); v = new C3PValue((char*) t.p); } else v = new C3PValue(keep(s)); }
      else if (ty == 3) v = new C3PValue(blk, (uint32_t) s.size());
      else if (ty == 4) v = new C3PValue(sb);
      else v = new C3PValue(&vec);
    }
    else if (kind == 2) {
      ExactZ k(key);
      if (ty == 1) v = new KeyValuePair((char*) k.p, num);
      else if (ty == 2) v = new KeyValuePair((char*) k.p, keep(s));
      else if (ty == 3) v = new KeyValuePair((char*) k.p, blk, (uint32_t) s.size());
      else if (ty == 4) v = new KeyValuePair((char*) k.p, sb);
      else v = new KeyValuePair((char*) k.p, &vec);
    }
    else {
      const char* k = kind == 1 ? keep(key) : nullptr;
      if (ty == 1) v = new KeyValuePair(k, num);
      else if (ty == 2) v = new KeyValuePair(k, keep(s));
      else if (ty == 3) v = new KeyValuePair(k, blk, (uint32_t) s.size());
      else if (ty == 4) v = new KeyValuePair(k, sb);
      else v = new KeyValuePair(k, &vec);
    }
    if (ty != 1 && ty != 5 && !(kind == 0 && ty == 2)) v->reapValue(o.A(2));
    w->id[v] = ++w->made;
    w->heads.push_back(v);
    e.R(w->made);
  }
  else if (o.is("link")) {
    C3PValue* j = w->heads[o.A(1) - 1];
    e.R(idof(w->heads[o.A(0) - 1]->link(j, o.A(2))));
    w->heads.erase(w->heads.begin() + (o.A(1) - 1));
  }
  else if (o.is("unlink")) {
    C3PValue* n = at(o.A(0), o.A(1));
    // the nodes that are to survive, in case n and its followers are deleted
    C3PValue* spared = n;
    if (o.A(2) && n->reapContainer()) { spared = n->nextValue(); while (spared && spared->reapContainer()) spared = spared->nextValue(); }
    e.R(w->heads[o.A(0) - 1]->unlink(n, o.A(2)));
    if (spared) w->heads.push_back(spared);
  }
  else if (o.is("unlinkmiss")) e.R(w->heads[o.A(0) - 1]->unlink(w->heads[o.A(1) - 1], o.A(2)));
  else if (o.is("drop")) {
    C3PValue* n = at(o.A(0), o.A(1));
    C3PValue*& h = w->heads[o.A(0) - 1];
    const bool gone = o.A(2) && n->reapContainer();
    e.R(h->drop(&h, n, o.A(2)));
    if (!h) w->heads.erase(w->heads.begin() + (o.A(0) - 1));
    if (!gone) w->heads.push_back(n);
  }
  else if (o.is("dropmiss")) { C3PValue*& h = w->heads[o.A(0) - 1]; e.R(h->drop(&h, w->heads[o.A(1) - 1], false)); }
  else if (o.is("del")) {
    C3PValue* n = w->heads[o.A(0) - 1];
    C3PValue* spared = n->nextValue();
    while (spared && spared->reapContainer()) spared = spared->nextValue();
    w->heads.erase(w->heads.begin() + (o.A(0) - 1));
    delete n;
    if (spared) w->heads.push_back(spared);
    e.R(0);
  }
  else if (o.is("setkey")) {
    KeyValuePair* n = (KeyValuePair*) at(o.A(0), o.A(1));
    if (o.A(2)) { ExactZ k(o.str(0)); e.R(n->setKey((char*) k.p)); }
    else e.R(n->setKey(keep(o.str(0))));
  }
  else if (o.is("set")) {
    C3PValue* n = at(o.A(0), o.A(1));
    const std::string s = o.str(0);
    switch ((int) o.A(2)) {
      case 1: { int32_t num = 0; for (int i = 0; i < 4; i++) num |= (int32_t) ((uint32_t) (uint8_t) s[i] << (8 * i)); e.R(n->set(num)); } break;
      case 2: e.R(n->set(keep(s))); break;
      case 3: e.R(n->set(keepb(s), (uint32_t) s.size())); break;
      case 4: { StringBuilder* b = mksb(s); w->sbs.push_back(b); e.R(n->set(b)); } break;
      default: { Vector3i16 x; x.x = (int16_t) o.d[0][0]; x.y = (int16_t) o.d[0][1]; x.z = (int16_t) o.d[0][2]; e.R(n->set(&x)); } break;
    }
  }
  else if (o.is("read")) {
    C3PValue* n = at(o.A(0), o.A(1));
    const char* k = n->has_key() ? ((KeyValuePair*) n)->getKey() : nullptr;
    e.R(tyof(n)); e.R(n->has_key()); e.R(n->reapContainer()); e.R(k ? (ll) strlen(k) : 0);
    for (; k && *k; k++) e.R((uint8_t) *k);
    val(n, e);
  }
  else if (o.is("wrong")) {
    C3PValue* n = at(o.A(0), o.A(1));
    int r = 0;
    switch ((int) o.A(2)) {
      case 1: { int32_t x; r = n->get_as(&x); } break;
      case 2: { const char* s; r = n->get_as(&s); } break;
      case 3: { uint8_t* p; uint32_t l; r = n->get_as(&p, &l); } break;
      case 4: { StringBuilder* s = nullptr; r = n->get_as(&s); } break;
      default: { Vector3i16 x; r = n->get_as(&x); } break;
    }
    e.R(r < 0);
  }
  else if (o.is("text")) {
    StringBuilder out;
    at(o.A(0), o.A(1))->toString(&out);
    for (int i = 0; i < out.length(); i++) e.R(out.byteAt(i));
  }
  else if (o.is("idx")) e.R(idof(w->heads[o.A(0) - 1]->valueWithIdx((uint32_t) o.A(1))));
  else if (o.is("count")) e.R(at(o.A(0), o.A(1))->count());
  else if (o.is("find")) { ExactZ k(o.str(0)); e.R(idof(((KeyValuePair*) w->heads[o.A(0) - 1])->valueWithKey(k.p))); }
  else if (o.is("keys")) {
    StringBuilder out;
    e.R(((KeyValuePair*) w->heads[o.A(0) - 1])->collectKeys(&out));
    for (int i = 0; i < out.length(); i++) e.R(out.byteAt(i));
  }
  else if (o.is("nextpair")) e.R(idof(((KeyValuePair*) at(o.A(0), o.A(1)))->nextKVP()));
  else if (o.is("end")) {
    while (!w->heads.empty()) {
      C3PValue* n = w->heads.back();
      w->heads.pop_back();
      C3PValue* spared = n->nextValue();
      while (spared && spared->reapContainer()) spared = spared->nextValue();
      delete n;
      if (spared) w->heads.push_back(spared);
    }
    for (StringBuilder* b : w->sbs) delete b;
    delete w;
    w = nullptr;
    e.R(heap_now() - base);
  }
  if (w) for (C3PValue* h : w->heads) {
    VI ids;
    for (C3PValue* v = h; v; v = v->nextValue()) ids.push_back(idof(v));
    e.S(ids);
  }
}
