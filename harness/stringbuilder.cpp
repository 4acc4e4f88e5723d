#include "vh.h"
#include "StringBuilder.h"

static StringBuilder* sb[3] = {nullptr, nullptr, nullptr};
static ll base = -1;
static bool tokens = false;

static void content(Ev& e, StringBuilder* x) {
  int n = x->length();
  uint8_t* p = (uint8_t*) malloc(n > 0 ? n : 1);
  int k = x->copyToBuffer(p, n, 0);
  VI v; for (int i = 0; i < k && i < n; i++) v.push_back(p[i]);
  free(p);
  e.S(v);
}

static void cstr(Ev& e, const char* p) { for (; *p; p++) e.R((uint8_t) *p); }

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new") || o.is("newt") || o.is("end")) {
    for (int i = 1; i < 3; i++) { delete sb[i]; sb[i] = nullptr; }
    ll h = heap_now();
    if (base < 0) base = h;
    ll leaked = h - base;
    for (int i = 1; i < 3; i++) sb[i] = new StringBuilder();
    e.R(leaked);
    base = h;
  }
  else {
    int t = (int) o.A(0);
    StringBuilder* s = sb[t];
    StringBuilder* x = sb[3 - t];
    if (o.is("concat")) { Exact b(o.str(0)); s->concat(b.p, (int) b.n); e.R(0); }
    else if (o.is("concats")) { ExactZ b(o.str(0)); s->concat((const char*) b.p); e.R(0); }
    else if (o.is("handbuf")) {
      std::string d = o.str(0);
      uint8_t* b = (uint8_t*) malloc(d.size() + 1); memcpy(b, d.data(), d.size()); b[d.size()] = 0;
      s->concatHandoff(b, (int) d.size()); if (d.empty()) free(b);
      e.R(0);
    }
    else if (o.is("concatb")) { s->concat((uint8_t) o.A(1)); e.R(0); }
    else if (o.is("concati")) { s->concat((int) o.A(1)); e.R(0); }
    else if (o.is("concatd")) { double v = (double) o.A(1); for (ll i = 0; i < o.A(2); i++) v *= 10.0; s->concat(v); e.R(0); }
    else if (o.is("concatf")) { ExactZ b(o.str(0)); e.R(s->concatf("<%s|%d>", b.p, (int) o.A(1))); }
    else if (o.is("prepend")) { Exact b(o.str(0)); s->prepend(b.p, (int) b.n); e.R(0); }
    else if (o.is("concatsb")) { s->concat(x); e.R(0); }
    else if (o.is("copylimit")) { s->concatLimit(x, (unsigned) o.A(1)); e.R(0); }
    else if (o.is("handoff")) { s->concatHandoff(x); e.R(0); }
    else if (o.is("prehandoff")) { s->prependHandoff(x); e.R(0); }
    else if (o.is("limit")) { s->concatHandoffLimit(x, (unsigned) o.A(1)); e.R(0); }
    else if (o.is("poshandoff")) e.R(s->concatHandoffPositions(x, (unsigned) o.A(1), (unsigned) o.A(2)));
    else if (o.is("cull1")) { s->cull((int) o.A(1)); e.R(0); }
    else if (o.is("cull2")) { s->cull((int) o.A(1), (int) o.A(2)); e.R(0); }
    else if (o.is("clear")) { s->clear(); e.R(0); }
    else if (o.is("upper")) { s->toUpper(); e.R(0); }
    else if (o.is("lower")) { s->toLower(); e.R(0); }
    else if (o.is("string")) {
      int n = s->length();
      uint8_t* p = s->string();
      for (int i = 0; i < n; i++) e.R(p[i]);
      if (p[n] != 0) e.R(-1);       // must be terminated
    }
    else if (o.is("byteat")) e.R(s->byteAt((int) o.A(1)));
    else if (o.is("copyto")) {
      size_t n = (size_t) o.A(1);
      uint8_t* p = (uint8_t*) malloc(n ? n : 1);
      int k = s->copyToBuffer(p, (uint32_t) n, (uint32_t) o.A(2));
      e.R(k); for (int i = 0; i < k && i < (int) n; i++) e.R(p[i]);
      free(p);
    }
    else if (o.is("isempty")) { e.R(s->isEmpty()); e.R(s->isEmpty(false)); }
    else if (o.is("locate")) { Exact b(o.str(0)); e.R(s->locate((const uint8_t*) b.p, (int) b.n, (int) o.A(1))); }
    else if (o.is("containss")) { ExactZ b(o.str(0)); e.R(s->contains((const char*) b.p)); }
    else if (o.is("containsc")) e.R(s->contains((char) o.A(1)));
    else if (o.is("cmpbin")) { Exact b(o.str(0)); e.R(s->cmpBinString(b.p, (int) b.n)); }
    else if (o.is("replace")) { ExactZ b(o.str(0)), c(o.str(1)); e.R(s->replace(b.p, c.p)); }
    else if (o.is("split")) { ExactZ b(o.str(0)); e.R(s->split(b.p)); }
    else if (o.is("implode")) { ExactZ b(o.str(0)); e.R(s->implode(b.p)); }
    else if (o.is("chunk")) e.R(s->chunk((int) o.A(1)));
    else if (o.is("drop")) e.R(s->drop_position((unsigned) o.A(1)));
    else if (o.is("position")) cstr(e, s->position((int) o.A(1)));
    else if (o.is("postrim")) cstr(e, s->position_trimmed((int) o.A(1)));
    else if (o.is("posint")) e.r = to_limbs((uint32_t) s->position_as_int((int) o.A(1)), 2);
    else if (o.is("posu64")) e.r = to_limbs(s->position_as_uint64((int) o.A(1)), 4);
    else if (o.is("maxfrag")) e.R(s->maximumFragmentLength());
  }
  if (getenv("VF_TOKENS")) {
    VI c; c.push_back(sb[1]->count()); c.push_back(sb[2]->count());
    e.S(c);
    for (int t = 1; t < 3; t++) for (int i = 0; i < (int) sb[t]->count(); i++) {
      int n = 0; uint8_t* p = sb[t]->position(i, &n); e.S(p, n);
    }
  }
  else {
    content(e, sb[1]); content(e, sb[2]);
    VI v; v.push_back(sb[1]->length()); v.push_back(sb[2]->length()); v.push_back(sb[1]->isEmpty()); v.push_back(sb[2]->isEmpty());
    e.S(v);
  }
}
