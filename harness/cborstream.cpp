/* Conformance driver for the streaming CBOR codec (CborStream). */
#include "vh.h"
#include <new>
#include "cbor-cpp/cbor.h"
#include "StringBuilder.h"

struct Hear : public cbor::listener {
  VI ev;
  void num(int64_t v) { ev.push_back(1); ev.push_back(v < 0); put(v < 0 ? (uint64_t) -(v + 1) : (uint64_t) v); }
  void unum(uint64_t v) { ev.push_back(1); ev.push_back(0); put(v); }
  void put(uint64_t v, int n = 4) { for (ll x : to_limbs(v, n)) ev.push_back(x); }
  void on_integer(int8_t v) { num(v); }
  void on_integer(int16_t v) { num(v); }
  void on_integer(int32_t v) { num(v); }
  void on_integer(int64_t v) { num(v); }
  void on_integer(uint8_t v) { unum(v); }
  void on_integer(uint16_t v) { unum(v); }
  void on_integer(uint32_t v) { unum(v); }
  void on_integer(uint64_t v) { unum(v); }
  void on_float32(float v) { uint32_t x; memcpy(&x, &v, 4); ev.push_back(11); put(x, 2); }
  void on_double(double v) { uint64_t x; memcpy(&x, &v, 8); ev.push_back(12); put(x); }
  void on_bytes(uint8_t* p, int n) { ev.push_back(2); ev.push_back(n); for (int i = 0; i < n; i++) ev.push_back(p[i]); }
  void on_string(char* p) { size_t n = strlen(p); ev.push_back(3); ev.push_back(n); for (size_t i = 0; i < n; i++) ev.push_back((uint8_t) p[i]); }
  void on_array(int n) { ev.push_back(4); put((uint32_t) n); }
  void on_map(int n) { ev.push_back(5); put((uint32_t) n); }
  void on_tag(unsigned int t) { ev.push_back(6); put(t); }
  void on_special(unsigned int c) { ev.push_back(10); ev.push_back(c); }
  void on_bool(bool b) { ev.push_back(7); ev.push_back(b); }
  void on_null() { ev.push_back(8); }
  void on_undefined() { ev.push_back(9); }
  void on_error(const char*) { ev.push_back(13); }
  void on_extra_integer(uint64_t v, int sign) { ev.push_back((sign < 0) ? 14 : 99); put(v); }
  void on_extra_tag(uint64_t t) { ev.push_back(6); put(t); }
  void on_extra_special(uint64_t) { ev.push_back(99); }
};

static Hear* hear = nullptr;
static StringBuilder* sb = nullptr;
static cbor::input_stringbuilder* in = nullptr;
static cbor::decoder* dec = nullptr;
static ll mode = -1;
static std::string all;

static void write(cbor::encoder& e, ll k, ll w, const VI& a, size_t at, const std::string& d) {
  const uint64_t v = limbs64(a, at);
  Exact b(d);
  switch (k) {
    case 0: if (w == 8) e.write_int((uint8_t) v); else if (w == 16) e.write_int((uint16_t) v); else if (w == 32) e.write_int((uint32_t) v); else e.write_int((uint64_t) v); break;
    case 1: if (w == 8) e.write_int((int8_t) v); else if (w == 16) e.write_int((int16_t) v); else if (w == 32) e.write_int((int32_t) v); else e.write_int((int64_t) v); break;
    case 2: e.write_bytes(b.p, b.n); break;
    case 3: if (w == 1) { ExactZ z(d); e.write_string(z.p); } else e.write_string((const char*) b.p, b.n); break;
    case 4: e.write_array((uint32_t) v); break;
    case 5: e.write_map((uint32_t) v); break;
    case 6: e.write_tag((uint32_t) v); break;
    case 7: e.write_bool(v != 0); break;
    case 11: { float f; uint32_t x = (uint32_t) v; memcpy(&f, &x, 4); e.write_float(f); break; }
    case 12: { double f; memcpy(&f, &v, 8); e.write_double(f); break; }
  }
}

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    delete dec; delete in; delete sb; delete hear;
    mode = o.A(0);
    all.clear();
    hear = new Hear(); sb = new StringBuilder();
    in = new cbor::input_stringbuilder(sb, mode == 1, false);
    dec = new cbor::decoder(*in, *hear);
  }
  else if (o.is("feed")) {
    Exact b(o.str(0));
    if (b.n) sb->concat(b.p, b.n);
    all += o.str(0);
    hear->ev.clear();
    dec->run();
    for (ll x : hear->ev) e.R(x);
    if (mode == 0) {          // a buffer that is not to be consumed stays as it is
      std::string now((size_t) sb->length(), 0);
      sb->copyToBuffer((uint8_t*) &now[0], now.size());
      if (now != all) e.R(-77);
    }
  }
  else if (o.is("whole")) {
    Exact b(o.str(0));
    Hear h;
    cbor::input_static i(b.p, b.n);
    cbor::decoder d(i, h);
    d.run();
    for (ll x : h.ev) e.R(x);
  }
  else if (o.is("enc")) {
    StringBuilder out;
    cbor::output_stringbuilder os(&out);
    cbor::encoder en(os);
    write(en, o.A(0), o.A(1), o.a, 2, o.str(0));
    if ((uint32_t) out.length() != os.size()) e.R(-76);
    uint8_t* p = os.data();
    for (uint32_t i = 0; i < os.size(); i++) e.R(p[i]);
  }
  else if (o.is("encto")) {
    StringBuilder out;
    cbor::output_stringbuilder os(&out);
    cbor::encoder en(os);
    write(en, o.A(1), o.A(2), o.a, 3, o.str(0));
    const uint32_t cap = (uint32_t) o.A(0);
    // caller's memory
    Exact mem(std::string(cap, 'x'));
    VI r;
    for (int own = 0; own < 2; own++) {
      if (own && !cap) break;
      cbor::output_static st(cap, own ? nullptr : mem.p);
      cbor::encoder en2(st);
      write(en2, o.A(1), o.A(2), o.a, 3, o.str(0));
      VI x;
      if (st.size() > cap) x.push_back(-5);
      else if ((uint32_t) out.length() > cap) x.push_back(-1);
      else for (uint32_t i = 0; i < st.size(); i++) x.push_back(st.data()[i]);
      if (own && x != r) r.push_back(-6); else r = x;
    }
    for (ll x : r) e.R(x);
  }
  e.S(VI{dec && dec->failed()});
}
