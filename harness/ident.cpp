#include "vh.h"
#include "StringBuilder.h"
#include "AbstractPlatform.h"
#include "uuid.h"
#include "Identity/Identity.h"

static std::string rnd; static size_t rnd_at = 0;
uint32_t randomUInt32() {
  uint32_t x = 0;
  for (int i = 3; i >= 0; i--) x = (x << 8) | (uint8_t) (rnd_at + i < rnd.size() ? rnd[rnd_at + i] : 0);
  rnd_at += 4;
  return x;
}
int8_t random_fill(uint8_t* b, size_t n) {
  for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (rnd_at + i < rnd.size() ? rnd[rnd_at + i] : 0);
  rnd_at += n;
  return 0;
}
static void script(const std::string& s) { rnd = s; rnd_at = 0; }

static UUID u[3];
static Identity* id[2] = {nullptr, nullptr};
static std::string store;

static void put(int k, Identity* x) { delete id[k]; id[k] = x; }
static Identity* load(const std::string& s) { Exact x(s); return Identity::fromBuffer(x.p, (int) x.n); }
static void say(Ev& e, const std::string& s) { for (char c : s) e.R((uint8_t) c); }
static std::string sb_str(StringBuilder* b) {
  std::string s; const int n = b->length();
  for (int i = 0; i < n; i++) s.push_back((char) b->byteAt(i));
  return s;
}

/* Memory as an allocator with a history hands it out. */
static void dirty() {
  void* p[24];
  for (int i = 0; i < 24; i++) { p[i] = malloc(16 + 4 * i); memset(p[i], 0xA5, 16 + 4 * i); }
  for (int i = 0; i < 24; i++) free(p[i]);
}

void vh_exec(const Op& o, Ev& e) {
  const int k = (int) o.A(0) - 1;
  if (o.is("ufrom")) { ExactZ s(o.str(0)); uuid_from_str(s.p, &u[k]); e.R(0); }
  else if (o.is("uto")) {
    const int n = (int) o.A(1);
    char* b = (char*) malloc(n > 0 ? n : 1);
    memset(b, 'z', n > 0 ? n : 1);
    uuid_to_str(&u[k], b, n);
    bool touched = false;
    for (int i = 0; i < n; i++) touched |= (b[i] != 'z');
    if (touched) say(e, std::string(b, strnlen(b, n)));
    free(b);
  }
  else if (o.is("usb")) { StringBuilder b; uuid_to_sb(&u[k], &b); say(e, sb_str(&b)); }
  else if (o.is("ugen")) { script(o.str(0)); uuid_gen(&u[k]); e.R(0); }
  else if (o.is("ucmp")) { e.R(uuid_compare(&u[k], &u[o.A(1) - 1]) ? 1 : 0); }
  else if (o.is("ucopy")) { uuid_copy(&u[k], &u[o.A(1) - 1]); e.R(0); }
  else if (o.is("igen")) { dirty(); script(o.str(1)); ExactZ h(o.str(0)); put(k, new IdentityUUID(h.p)); e.R(0); }
  else if (o.is("istr")) { dirty(); ExactZ h(o.str(0)); ExactZ s(o.str(1)); put(k, new IdentityUUID(h.p, s.p)); e.R(0); }
  else if (o.is("ifrom")) { dirty(); put(k, load(o.str(0))); e.R(id[k] != nullptr); }
  else if (o.is("iload")) { dirty(); put(k, load(store)); e.R(id[k] != nullptr); }
  else if (o.is("idel")) { put(k, nullptr); e.R(0); }
  else if (o.is("iser")) {
    if (!id[k]) e.R(-99);
    else {
      const int n = o.A(1) < 0 ? id[k]->length() : (int) o.A(1);
      uint8_t* b = (uint8_t*) malloc(n > 0 ? n : 1);
      memset(b, 0x5A, n > 0 ? n : 1);
      const int ret = (o.A(1) < 0) ? id[k]->toBuffer(b) : id[k]->serialize(b, (uint16_t) n);
      if (ret > 0 && ret <= n) store.assign((char*) b, ret);
      free(b);
      e.R(ret);
    }
  }
  else if (o.is("iself")) { if (!id[k]) e.R(-99); else { id[k]->isSelf(o.A(1) != 0); e.R(0); } }
  else if (o.is("ifmt")) {
    if (!id[k]) e.R(-99);
    else { Identity* x = id[k]->getIdentity((IdentFormat) o.A(1)); e.R(x == id[k] ? 1 : x ? 2 : 0); }
  }
  else if (o.is("iname")) {
    if (!id[k]) e.R(-99);
    else { ExactZ h(o.str(0)); Identity* x = id[k]->getIdentity((const char*) h.p); e.R(x == id[k] ? 1 : x ? 2 : 0); }
  }
  else if (o.is("itext")) {
    if (!id[k]) e.R(-99);
    else { StringBuilder b; id[k]->toString(&b); say(e, sb_str(&b)); }
  }
  for (int i = 0; i < 3; i++) e.S(u[i].id, 16);
  for (int i = 0; i < 2; i++) {
    VI v; std::string h; std::string q;
    if (id[i]) {
      v.push_back(id[i]->length()); v.push_back((ll) id[i]->identityType());
      v.push_back(id[i]->isDirty()); v.push_back(id[i]->isValid()); v.push_back(id[i]->isSelf());
      h = id[i]->getHandle();
      uint8_t raw[16]; ((IdentityUUID*) id[i])->copyRaw(raw);
      q.assign((char*) raw, 16);
    }
    e.S(v); e.S(h.data(), h.size()); e.S(q.data(), q.size());
  }
  e.S(store.data(), store.size());
}
