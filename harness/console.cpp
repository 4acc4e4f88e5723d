#include "vh.h"
#include "StringBuilder.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Console/C3PConsole.h"

static const int MAXC = 12;
struct Def { char name[40], help[40], usage[40], say[64]; int kind, ret; ConsoleCommand* obj; };
static Def defs[MAXC];
static int ndefs = 0;
static ParsingConsole* con = nullptr;
static Ev* cur = nullptr;
static VI outb;                       // preallocated
static std::vector<VI>* calls = nullptr;
static ll base = 0;

struct Scripted : public BufferAccepter {
  int32_t room = 0, burst = 0;
  int8_t pushBuffer(StringBuilder* b) {
    const int32_t len = b->length();
    int32_t n = len < room ? len : room;
    if (burst < n) n = burst;
    if (n <= 0) return -1;
    for (int i = 0; i < n; i++) outb.push_back((uint8_t) b->byteAt(i));
    b->cull(n);
    room -= n;
    return (n == len) ? 1 : 0;
  }
  int32_t bufferAvailable() { return room; }
};
static Scripted eff;

static int called(int k, StringBuilder* log, StringBuilder* args) {
  VI v; v.push_back(k + 1);
  const int n = args->count();
  for (int i = 0; i < n; i++) {
    const char* p = args->position(i);
    const int len = (int) strlen(p);
    v.push_back(-len);
    for (int j = 0; j < len; j++) v.push_back((uint8_t) p[j]);
  }
  calls->push_back(v);
  Def& d = defs[k];
  switch (d.kind) {
    case 1:  return con->console_handler_help(log, args);
    case 2:  return con->console_handler_conf(log, args);
    case 3: {
      StringBuilder s(d.say);
      con->printToLog(&s);
      return d.ret;
    }
    default:
      if (d.say[0]) log->concat(d.say);
      return d.ret;
  }
}
template <int K> int cb(StringBuilder* log, StringBuilder* args) { return called(K, log, args); }
static const consoleCallback cbs[MAXC] = { cb<0>, cb<1>, cb<2>, cb<3>, cb<4>, cb<5>, cb<6>, cb<7>, cb<8>, cb<9>, cb<10>, cb<11> };

static void put(char* to, size_t n, const std::string& s) { snprintf(to, n, "%s", s.c_str()); }
static VI text(StringBuilder* b) {
  VI v; const int n = b->length();
  for (int i = 0; i < n; i++) v.push_back((uint8_t) b->byteAt(i));
  return v;
}
static void drop() {
  delete con; con = nullptr;
  for (int i = 0; i < ndefs; i++) { delete defs[i].obj; defs[i].obj = nullptr; }
  ndefs = 0;
}

void vh_exec(const Op& o, Ev& e) {
  std::vector<VI> here; calls = &here; outb.clear(); outb.reserve(65536);
  bool flags[5];
  if (o.is("new")) {
    drop();
    base = heap_now();
    con = new ParsingConsole((uint16_t) o.A(0));
    eff.room = (int32_t) o.A(2); eff.burst = (int32_t) o.A(3);
    if (o.A(1)) con->setEfferant(&eff);
    e.R(con->init());
  }
  else if (o.is("end")) { drop(); e.R(heap_now() - base); }
  else if (nullptr == con) { e.R(-99); return; }
  else if (o.is("def")) {
    if (ndefs >= MAXC) { e.R(-99); return; }
    const int k = ndefs++;
    Def& d = defs[k];
    put(d.name, 40, o.str(0)); put(d.help, 40, o.str(1)); put(d.usage, 40, o.str(2)); put(d.say, 64, o.str(3));
    d.kind = (int) o.A(3); d.ret = (int) o.A(4); d.obj = nullptr;
    const uint8_t req = (uint8_t) o.A(2);
    const char sc = (char) o.A(1);
    switch (o.A(0)) {
      case 0: e.R(sc ? con->defineCommand(d.name, sc, d.help, d.usage, req, cbs[k]) : con->defineCommand(d.name, d.help, d.usage, req, cbs[k])); break;
      case 1: d.obj = new ConsoleCommand(d.name, sc, d.help, d.usage, req, cbs[k]); e.R(con->defineCommand(d.obj)); break;
      default: d.obj = new ConsoleCommand(d.name, sc, d.help, d.usage, req, cbs[k]); e.R(con->defineCommands(d.obj, 1)); break;
    }
  }
  else if (o.is("push")) {
    StringBuilder b;
    for (size_t i = 0; i < o.d.size(); i++) { Exact x(o.str(i)); if (x.n) b.concat(x.p, (int) x.n); }
    e.R(con->pushBuffer(&b));
    if (!b.isEmpty()) e.R(-50);
  }
  else if (o.is("print")) { Exact x(o.str(0)); StringBuilder b(x.p, (int) x.n); con->printToLog(&b); e.R(0); }
  else if (o.is("prompt")) { con->printPrompt(); e.R(0); }
  else if (o.is("fetch")) { StringBuilder b; con->fetchLog(&b); e.r = text(&b); }
  else if (o.is("help")) { StringBuilder b; con->printHelp(&b); e.r = text(&b); }
  else if (o.is("helpfor")) { StringBuilder b; ExactZ z(o.str(0)); con->printHelp(&b, z.p); e.r = text(&b); }
  else if (o.is("flag")) {
    const bool v = o.A(1);
    switch (o.A(0)) {
      case 1: con->localEcho(v); break;
      case 2: con->emitPrompt(v); break;
      case 3: con->forceReturn(v); break;
      case 4: con->historyFail(v); break;
      case 5: con->printHelpOnFail(v); break;
    }
    e.R(0);
  }
  else if (o.is("term")) { con->setRXTerminator((LineTerm) o.A(0)); e.R(0); }
  else if (o.is("depth")) { con->maxHistoryDepth((uint8_t) o.A(0)); e.R(0); }
  else if (o.is("clear")) { con->clearHistory(); e.R(0); }
  else if (o.is("pstr")) {
    static char prompt[64];
    if (o.d.size()) { put(prompt, 64, o.str(0)); con->setPromptString(prompt); }
    else con->setPromptString(nullptr);
    e.R(0);
  }
  else if (o.is("room")) { eff.room = (int32_t) o.A(0); eff.burst = (int32_t) o.A(1); e.R(0); }
  else if (o.is("eff")) { con->setEfferant(o.A(0) ? &eff : nullptr); e.R(0); }
  else e.R(-98);

  e.S(outb);
  VI st, fl, hist;
  if (con) {
    st.push_back(con->logLength()); st.push_back(con->historyDepth()); st.push_back(con->maxHistoryDepth());
    st.push_back((ll) con->getRXTerminator()); st.push_back(con->bufferAvailable());
    fl.push_back(con->localEcho()); fl.push_back(con->emitPrompt()); fl.push_back(con->forceReturn());
    fl.push_back(con->historyFail()); fl.push_back(con->printHelpOnFail());
    StringBuilder h; con->printHistory(&h); hist = text(&h);
  }
  else {
    st = VI{0, 0, 8, 2, -1}; fl = VI{0, 0, 0, 0, 0};
    StringBuilder h; ParsingConsole(8).printHistory(&h); hist = text(&h);
  }
  e.S(st); e.S(fl); e.S(hist);
  for (auto& v : here) e.S(v);
}
