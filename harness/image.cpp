/* Drives Image: pixels, shapes, text, and the serialized form. */
#include "vh.h"
#include "Image/Image.h"
static std::vector<GFXglyph> glyphs;
static std::vector<uint8_t> packed;
static GFXfont custom;
static int setFont(int first, int adv, const std::vector<ll>& d) {
  glyphs.clear(); packed.clear();
  for (size_t i = 0; i + 5 <= d.size(); ) {
    GFXglyph g = { (uint16_t) packed.size(), (uint8_t) d[i], (uint8_t) d[i + 1], (uint8_t) d[i + 2], (int8_t) d[i + 3], (int8_t) d[i + 4] };
    const size_t n = (size_t) (d[i] * d[i + 1]); i += 5;
    for (size_t k = 0; k < n; k++) { if (!(k & 7)) packed.push_back(0); if (d[i + k]) packed.back() |= 0x80 >> (k & 7); }
    i += n; glyphs.push_back(g);
  }
  packed.shrink_to_fit(); glyphs.shrink_to_fit();
  custom.bitmap = packed.data(); custom.glyph = glyphs.data(); custom.first = (uint16_t) first; custom.last = (uint16_t) (first + glyphs.size() - 1); custom.yAdvance = (uint8_t) adv;
  return (int) glyphs.size();
}
static void pack() {
  setFont(65, 6, {3, 4, 4, 0, -3, 1,0,1, 0,1,0, 1,1,1, 1,0,0,   5, 3, 5, -1, -2, 1,1,1,1,1, 0,1,0,0,1, 1,0,0,0,1,   0, 0, 3, 0, 0});
}
static Image* im = nullptr;
static uint8_t* ext = nullptr;
static int own = 0;
static std::vector<uint8_t> wire;
static bool plain(int f, int h) { return f == 2 || f == 3 || f == 4 || (f >= 6 && f <= 9) || (f == 1 && h % 8 == 0); }
static int bpp(int f) { switch (f) { case 1: return 1; case 5: return 4; case 4: case 9: return 8; case 3: case 8: return 16; case 2: case 7: return 24; case 6: return 32; } return 0; }
static std::vector<uint8_t> bytes(const Op& o) { std::vector<uint8_t> v; if (o.d.size()) for (ll x : o.d[0]) v.push_back((uint8_t) x); return v; }
static ll sg(uint32_t x) { return (ll) (int32_t) x; }
static int load(const std::vector<uint8_t>& v) {
  uint8_t* b = (uint8_t*) malloc(v.size() ? v.size() : 1); memcpy(b, v.data(), v.size());     // (exact, so that ASan sees a read past the end)
  if (!v.size()) { free(b); return im->deserialize(nullptr, 0); }
  const int r = im->deserialize(b, (uint32_t) v.size()); free(b);
  if (r == 0) own = 1;
  return r;
}
static void run(const Op& o, Ev& e) {
  if (!im) { im = new Image(); pack(); }
  const VI& a = o.a; const int F = (int) im->format();
  if (o.is("new")) {
    delete im; free(ext); ext = nullptr; pack();
    const uint32_t sz = ((uint32_t) (a[0] * a[1] * bpp((int) a[2])) + 7) / 8;
    if (a[3]) { ext = (uint8_t*) calloc(1, sz); im = new Image((PixUInt) a[0], (PixUInt) a[1], (ImgBufferFormat) a[2], ext); own = 2; e.R(1); }
    else { im = new Image((PixUInt) a[0], (PixUInt) a[1], (ImgBufferFormat) a[2]); e.R(im->reallocate()); own = 1; }
  }
  else if (o.is("size")) { const bool r = im->setSize((PixUInt) a[0], (PixUInt) a[1]); if (r) own = 1; e.R(r); }
  else if (o.is("wipe")) { im->wipe(); own = 0; e.R(0); }
  else if (o.is("copy")) {
    auto v = bytes(o); const int f = (int) a[0];
    if ((ll) v.size() != ((ll) im->x() * im->y() * bpp(f) + 7) / 8 || (f && !plain(f, im->y()))) { e.R(-99); return; }
    uint8_t* b = (uint8_t*) malloc(v.size() + 1); memcpy(b, v.data(), v.size());
    const bool r = (f == F && f) ? im->setBufferByCopy(b) : im->setBufferByCopy(b, (ImgBufferFormat) f); free(b);
    if (r && own == 0) own = 1;
    e.R(r);
  }
  else if (o.is("orient")) { im->orientation((ImgOrientation) a[0]); e.R((ll) im->orientation()); }
  else if (o.is("flip")) { im->flipX(a[0]); im->flipY(a[1]); e.R(0); }
  else if (o.is("set")) e.R(im->setPixel((PixUInt) a[0], (PixUInt) a[1], (uint32_t) a[2]));
  else if (o.is("rgb")) {
    if (F == 2 || F == 3 || F == 4) e.R(-99);
    else e.R(im->setPixel((PixUInt) a[0], (PixUInt) a[1], (uint8_t) a[2], (uint8_t) a[3], (uint8_t) a[4]));
  }
  else if (o.is("get")) e.R(sg(im->getPixel((PixUInt) a[0], (PixUInt) a[1])));
  else if (o.is("as")) {
    auto ok = [](int f) { return f == 1 || (f >= 6 && f <= 9); };
    if (!ok(F) || !ok((int) a[2])) e.R(-99); else e.R(sg(im->getPixelAsFormat((PixUInt) a[0], (PixUInt) a[1], (ImgBufferFormat) a[2])));
  }
  else if (o.is("fill")) { im->fill((uint32_t) a[0]); e.R(0); }
  else if (o.is("ser")) {
    if (im->allocated() && F && !plain(F, im->y())) { e.R(-99); return; }
    StringBuilder s; const int r = im->serialize(&s); e.R(r);
    const uint32_t room = im->bytesUsed() + 10;
    uint8_t* b = (uint8_t*) malloc(room); uint32_t n = 0, n2 = 0;
    const int r2 = im->serialize(b, &n); uint8_t head[10]; const int r3 = im->serializeWithoutBuffer(head, &n2);
    if (r2 != r || r3 != r) e.R(-90);
    if (r == 0) {
      const int len = s.length(); uint8_t* p = s.string();
      if ((uint32_t) len != n || memcmp(p, b, n) || n2 != 10 || memcmp(head, b, 10)) e.R(-91);
      wire.assign(p, p + len);
      for (int i = 0; i < len; i++) e.R(p[i]);
    }
    free(b);
  }
  else if (o.is("load")) e.R(load(wire));
  else if (o.is("loadd")) e.R(load(bytes(o)));
  else if (o.is("line")) { im->drawLine((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (uint32_t) a[4]); e.R(0); }
  else if (o.is("hline")) { im->drawFastHLine((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (uint32_t) a[3]); e.R(0); }
  else if (o.is("vline")) { im->drawFastVLine((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (uint32_t) a[3]); e.R(0); }
  else if (o.is("frect")) { im->fillRect((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (uint32_t) a[4]); e.R(0); }
  else if ((o.is("rect") || o.is("rrect") || o.is("frrect")) && (!a[2] || !a[3])) e.R(-99);
  else if (o.is("rect")) { im->drawRect((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (uint32_t) a[4]); e.R(0); }
  else if (o.is("rrect")) { im->drawRoundRect((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (PixUInt) a[4], (uint32_t) a[5]); e.R(0); }
  else if (o.is("frrect")) { im->fillRoundRect((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (PixUInt) a[4], (uint32_t) a[5]); e.R(0); }
  else if (o.is("circle")) { im->drawCircle((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (uint32_t) a[3]); e.R(0); }
  else if (o.is("fcircle")) { im->fillCircle((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (uint32_t) a[3]); e.R(0); }
  else if (o.is("tri")) { im->drawTriangle((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (PixUInt) a[4], (PixUInt) a[5], (uint32_t) a[6]); e.R(0); }
  else if (o.is("ftri")) { im->fillTriangle((PixUInt) a[0], (PixUInt) a[1], (PixUInt) a[2], (PixUInt) a[3], (PixUInt) a[4], (PixUInt) a[5], (uint32_t) a[6]); e.R(0); }
  else if (o.is("bitmap")) {
    auto v = bytes(o);
    if ((ll) v.size() != a[2] * a[3]) e.R(-99);
    else { uint8_t* b = (uint8_t*) malloc(v.size() + 1); memcpy(b, v.data(), v.size()); im->drawBitmap((PixUInt) a[0], (PixUInt) a[1], b, (PixUInt) a[2], (PixUInt) a[3]); free(b); e.R(0); }
  }
  else if (o.is("char")) {
    if (im->getFont() && (a[2] < custom.first || a[2] > custom.last)) e.R(-99);
    else { im->drawChar((PixUInt) a[0], (PixUInt) a[1], (unsigned char) a[2], (uint32_t) a[3], (uint32_t) a[4], (uint8_t) a[5]); e.R(0); }
  }
  else if (o.is("text")) {
    im->setCursor((PixUInt) a[0], (PixUInt) a[1]); im->setTextSize((uint8_t) a[2]);
    if (a[3] == a[4]) im->setTextColor((uint32_t) a[3]); else im->setTextColor((uint32_t) a[3], (uint32_t) a[4]);
    im->setFont(a[5] ? &custom : nullptr); im->textWrap(a[6]); im->cp437(a[7]);
    e.R(im->getFontWidth()); e.R(im->getFontHeight());
  }
  else if (o.is("font")) { e.R(setFont((int) a[0], (int) a[1], o.d[0])); }
  else if (o.is("write")) {
    const std::string s = o.str(0);
    if (s.find('\0') != std::string::npos) e.R(-99);
    else { if (s.size() % 2) im->writeString(s.c_str()); else if (s.size()) { StringBuilder b(s.c_str()); im->writeString(&b); } e.R(0); }
  }
  else if (o.is("box")) {
    const std::string s = o.str(0);
    if (s.find('\0') != std::string::npos) { e.R(-99); return; }
    PixUInt x1 = 7, y1 = 7, w = 7, h = 7;
    im->getTextBounds(s.c_str(), (PixUInt) a[0], (PixUInt) a[1], &x1, &y1, &w, &h);
    e.R(x1); e.R(w); e.R(y1); e.R(h);
    PixUInt p = 7, q = 7, u = 7, v = 7;
    im->getTextBounds((const uint8_t*) s.c_str(), (PixUInt) a[0], (PixUInt) a[1], &p, &q, &u, &v);
    if (p != x1 || q != y1 || u != w || v != h) e.R(-90);
    if (s.size()) {
      StringBuilder b(s.c_str()); p = q = u = v = 7;
      im->getTextBounds(&b, (PixUInt) a[0], (PixUInt) a[1], &p, &q, &u, &v);
      if (p != x1 || q != y1 || u != w || v != h) e.R(-91);
    }
  }
}
void vh_exec(const Op& o, Ev& e) {
  run(o, e);
  if (im->allocated() != (own != 0)) e.R(-95);
  if (im->bitsPerPixel() != bpp((int) im->format())) e.R(-96);
  e.S(VI{im->x(), im->y(), (ll) im->format(), own, im->bytesUsed(), (ll) im->orientation(), im->flipX(), im->flipY(), im->textWrap(), im->cp437(), im->getCursorX(), im->getCursorY()});
  const bool turned = ((int) im->orientation()) & 1;
  const int W = turned ? im->y() : im->x(), H = turned ? im->x() : im->y();
  for (int j = 0; j < H; j++) { VI v; for (int i = 0; i < W; i++) v.push_back(sg(im->getPixel((PixUInt) i, (PixUInt) j))); e.S(v); }
}
