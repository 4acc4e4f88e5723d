/* Conformance driver for data records (Record). */
#include "vh.h"
#include "Storage/Storage.h"

class Rec : public SimpleDataRecord {
  public:
    std::string pay; bool fails = false;
    Rec(int k) : SimpleDataRecord(7, (StorageRecordType) k) {}
    int8_t serialize(StringBuilder* out, TCode f) {
      if (fails || f != TCode::CBOR) return -1;
      if (pay.size()) out->concat((uint8_t*) pay.data(), (int) pay.size());
      return 0;
    }
    int8_t deserialize(StringBuilder* in, TCode f) {
      if (f != TCode::CBOR) return -1;
      const int n = in->length();
      if (n > 0 && in->byteAt(0) == 255) return -1;
      pay.clear();
      for (int i = 0; i < n; i++) pay.push_back((char) in->byteAt(i));
      return 0;
    }
};
static Rec* rec = nullptr;
static bool sure = true;

static uint32_t tag_of(const Op& o) { std::string t = o.str(0); uint32_t x = 0; for (int i = 3; i >= 0; i--) x = (x << 8) | (i < (int) t.size() ? (uint8_t) t[i] : 0); return x; }

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) { delete rec; rec = new Rec((int) o.A(0)); sure = true; e.R(0); }
  else if (!rec) e.R(-98);
  else if (o.is("pay")) { rec->pay = o.str(0); e.R(0); }
  else if (o.is("fail")) { rec->fails = (1 == o.A(0)); e.R(0); }
  else if (o.is("save")) {
    if (!sure) e.R(-99);
    else {
      ExactZ name(o.str(1)); StringBuilder out;
      const int r = rec->save(tag_of(o), name.p, &out);
      e.R(r);
      if (0 == r) { const int n = out.length(); for (int i = 0; i < n; i++) e.R(out.byteAt(i)); }
    }
  }
  else if (o.is("load")) {
    const std::string b = o.str(1);
    int r;
    if (o.A(0) == 0) {
      StringBuilder in; const size_t c = b.size() > 50 ? 45 : b.size() / 2;
      if (c) in.concat((uint8_t*) b.data(), (int) c);
      if (b.size() > c) in.concat((uint8_t*) b.data() + c, (int) (b.size() - c));
      r = rec->load(tag_of(o), &in);
    }
    else { Exact in(b); r = rec->load(tag_of(o), in.p, (uint32_t) in.n); }
    if (r == 0) sure = true; else if (b.size() >= 40) sure = false;
    e.R(r);
  }
  else if (o.is("stat")) {
    if (!sure) e.R(-99);
    else {
      e.R(rec->isDirty()); e.R(rec->wasLoaded());
      const uint32_t h = rec->hash(); for (int i = 0; i < 4; i++) e.R((h >> (8 * i)) & 255);
      const uint64_t t = rec->timestamp(); for (int i = 0; i < 8; i++) e.R((ll) ((t >> (8 * i)) & 255));
    }
  }
  else if (o.is("name")) {
    if (!sure) e.R(-99);
    else {
      StringBuilder out; rec->printDebug(&out);
      std::string s((char*) out.string(), (size_t) out.length());
      size_t p = s.find("Key:\t "); p = (p == std::string::npos) ? s.size() : p + 6;
      for (; p < s.size() && s[p] != '\n'; p++) e.R((uint8_t) s[p]);
    }
  }
  else e.R(-97);
  VI p; if (rec) for (char c : rec->pay) p.push_back((uint8_t) c);
  e.S(p);
}
