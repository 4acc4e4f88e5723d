#include "vh.h"
#include "CppPotpourri.h"
#include "C3PValue/C3PValue.h"
#include "StringBuilder.h"

static C3PValue* v = nullptr;
static int width(int t) { return t == 1 || t == 6 || t == 11 ? 1 : t == 2 || t == 7 ? 2 : t == 3 || t == 8 || t == 12 ? 4 : 8; }

static C3PValue* mk(int t, uint64_t x) {
  switch (t) {
    case 1: return new C3PValue((uint8_t) x);
    case 2: return new C3PValue((uint16_t) x);
    case 3: return new C3PValue((uint32_t) x);
    case 4: return new C3PValue((uint64_t) x);
    case 6: return new C3PValue((int8_t) x);
    case 7: return new C3PValue((int16_t) x);
    case 8: return new C3PValue((int32_t) x);
    case 9: return new C3PValue((int64_t) x);
    case 11: return new C3PValue((bool) x);
    case 12: { float f; uint32_t u = (uint32_t) x; memcpy(&f, &u, 4); return new C3PValue(f); }
    default: { double f; memcpy(&f, &x, 8); return new C3PValue(f); }
  }
}

void vh_exec(const Op& o, Ev& e) {
  uint64_t x = o.d.size() ? limbs64(o.d[0]) : 0;
  if (o.is("new")) {
    delete v;
    v = o.A(1) ? mk((int) o.A(0), x) : new C3PValue((TCode) o.A(0));
    e.R(0);
  }
  else if (o.is("set")) {
    const int t = (int) o.A(0);
    if (o.A(1)) { C3PValue* src = mk(t, x); e.R(v->set(src)); delete src; }
    else {
      uint8_t* mem = (uint8_t*) malloc(width(t));    // exactly as large as the type
      memcpy(mem, &x, width(t));
      e.R(v->set_from((TCode) t, mem));
      free(mem);
    }
  }
  else if (o.is("get")) {
    const int t = (int) o.A(0);
    uint8_t* mem = (uint8_t*) malloc(width(t));
    memset(mem, 0xA5, width(t));
    const int r = v->get_as((TCode) t, mem);
    e.R(r);
    uint64_t out = 0;
    memcpy(&out, mem, width(t));
    if (r == 0) for (ll k : to_limbs(out)) e.R(k);
    else for (int i = 0; i < width(t); i++) if (mem[i] != 0xA5) { e.R(777); break; }     // a refused read must not write
    free(mem);
  }
  else if (o.is("getc")) {
    int8_t ok = 77;
    uint64_t out = 0;
    switch ((int) o.A(0)) {
      case 3: out = v->get_as_uint(&ok); break;
      case 8: out = (uint32_t) v->get_as_int(&ok); break;
      case 4: out = v->get_as_uint64(&ok); break;
      case 9: out = (uint64_t) v->get_as_int64(&ok); break;
      case 11: out = v->get_as_bool(&ok) ? 1 : 0; break;
      case 12: { float f = v->get_as_float(&ok); memcpy(&out, &f, 4); } break;
      default: { double f = v->get_as_double(&ok); memcpy(&out, &f, 8); } break;
    }
    e.R(ok);
    for (ll k : to_limbs(out)) e.R(k);
  }
  else if (o.is("text")) {
    StringBuilder sb;
    v->toString(&sb);
    const char* s = (const char*) sb.string();
    for (int i = 0; i < sb.length(); i++) e.R((uint8_t) s[i]);
  }
  else if (o.is("risk")) e.R(C3PType::conversionRisk((TCode) o.A(0), (TCode) o.A(1)));
  else if (o.is("dirty")) { uint16_t m = (uint16_t) o.A(0); bool b = v->dirty(&m); e.R(b); e.R(m); }
  if (v) {
    const int t = (int) v->tcode();
    uint64_t out = 0;
    uint8_t mem[16]; memset(mem, 0, 16);
    v->get_as((TCode) t, mem);
    memcpy(&out, mem, width(t));
    e.S(to_limbs(out));
    VI s; s.push_back(t); s.push_back(v->length()); s.push_back(v->trace());
    e.S(s);
  }
}
