#include "vh.h"
#include "StringBuilder.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"

struct Scripted : public BufferAccepter {
  int32_t room = 0;
  std::string got;
  int8_t pushBuffer(StringBuilder* b) {
    const int32_t len = b->length();
    const int32_t n = len < room ? len : room;
    if (n <= 0) return -1;
    for (int i = 0; i < n; i++) got.push_back((char) b->byteAt(i));
    b->cull(n);
    room -= n;
    return (n == len) ? 1 : 0;
  }
  int32_t bufferAvailable() { return room; }
};
static Scripted* out = nullptr;
static Base64Encoder* enc = nullptr;
static Base64Decoder* dec = nullptr;
static StringBuilder* buf = nullptr;

void vh_exec(const Op& o, Ev& e) {
  ll ret = 0;
  if (out) out->got.clear();
  if (o.is("new")) {
    delete enc; delete dec; delete out; delete buf;
    enc = nullptr; dec = nullptr;
    out = new Scripted(); buf = new StringBuilder();
    if (o.A(0)) { dec = new Base64Decoder(out); dec->inputLength((int32_t) o.A(1)); }
    else { enc = new Base64Encoder(out); if (o.A(1)) enc->inputLength((int32_t) o.A(1)); }
    e.R(0);
  }
  else if (o.is("link")) { if (enc) enc->setEfferant(o.A(0) ? out : nullptr); else dec->setEfferant(o.A(0) ? out : nullptr); e.R(0); }
  else if (o.is("chunk")) { if (enc) enc->inputLength((int32_t) o.A(0)); else dec->inputLength((int32_t) o.A(0)); e.R(0); }
  else if (o.is("feed")) { const std::string s = o.str(0); Exact x(s); if (x.n) buf->concat(x.p, (int) x.n); e.R(0); }
  else if (o.is("room")) { out->room = (int32_t) o.A(0); e.R(0); }
  else if (o.is("discard")) { buf->clear(); e.R(0); }
  else if (o.is("push")) {
    const int32_t il = enc ? enc->inputLength() : dec->inputLength();
    const int32_t n = il ? il : buf->length();
    const int32_t av = enc ? enc->bufferAvailable() : dec->bufferAvailable();
    ret = enc ? enc->pushBuffer(buf) : dec->pushBuffer(buf);
    e.R(ret); e.R(n < av);
  }
  std::string s;
  const int len = buf->length();
  for (int i = 0; i < len; i++) s.push_back((char) buf->byteAt(i));
  e.S(s.data(), s.size());
  e.S(out->got.data(), out->got.size());
  VI v; v.push_back(out->room); e.S(v);
}
