#include <stdarg.h>
#include "vh.h"
#include "FiniteStateMachine.h"

enum class ST : uint8_t { S0, S1, S2, S3, S4, S5, BAD, LAST = 200 };
static const EnumDef<ST> DEFS[] = {
  { ST::S0, "S0" }, { ST::S1, "S1" }, { ST::S2, "S2" }, { ST::S3, "S3" }, { ST::S4, "S4" }, { ST::S5, "S5" },
  { ST::BAD, "BAD", ENUM_WRAPPER_FLAG_IS_INVALID },
};
static const EnumDefList<ST> LIST(DEFS, sizeof(DEFS) / sizeof(DEFS[0]), "ST");

class M : public StateMachine<ST> {
  public:
    int answer, asked; ll lk;
    M(ST s, unsigned c) : StateMachine<ST>("m", &LIST, s, c), answer(0), asked(-1), lk(-1) {}
    int8_t _fsm_poll() { return 0; }
    int8_t _fsm_set_position(ST s) { asked = (int) s; if (lk >= 0) _fsm_lockout((uint32_t) lk); return (int8_t) answer; }
    int route(bool app, const VI& v) {
      int x[10]; for (int i = 0; i < 10; i++) x[i] = i < (int) v.size() ? (int) v[i] : 0;
      const int n = (int) v.size();
      return app ? _fsm_append_route(n, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9])
                 : _fsm_set_route(n, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]);
    }
    void exec(const Op& o, Ev& e) {
      if (o.is("set")) e.R(route(false, o.d[0]));
      else if (o.is("append")) e.R(route(true, o.d[0]));
      else if (o.is("post")) e.R(_fsm_append_state((ST) o.A(0)));
      else if (o.is("pre")) e.R(_fsm_prepend_state((ST) o.A(0)));
      else if (o.is("advance")) { asked = -1; answer = (int) o.A(0); lk = o.A(1); int r = _fsm_advance(); e.R(r); e.R(asked); }
      else if (o.is("reset")) { _fsm_reset((ST) o.A(0)); e.R(0); }
      else if (o.is("mark")) { _fsm_mark_current_state((ST) o.A(0)); e.R(0); }
      else if (o.is("slow")) { _fsm_slowdown((uint32_t) o.A(0)); e.R(0); }
      else if (o.is("lock")) { _fsm_lockout((uint32_t) o.A(0)); e.R(0); }
      else if (o.is("wait")) { sim_us += 1000ULL * (uint64_t) o.A(0); e.R(0); }
      else if (o.is("isnext")) e.R(_fsm_is_next_pos((ST) o.A(0)));
      else e.R(0);
      VI s, p, w;
      s.push_back((int) currentState()); s.push_back((int) priorState()); s.push_back(_fsm_is_stable());
      s.push_back(_fsm_is_stable() ? -1 : (int) _fsm_pos_next());
      s.push_back(_fsm_is_waiting()); s.push_back(_fsm_lockout()); s.push_back(_fsm_slowdown());
      for (int i = 0; i < 6; i++) p.push_back(_fsm_state_planned((ST) i));
      StringBuilder out; printFSM(&out);
      const char* t = strstr((char*) out.string(), "Next states:");
      if (t) for (t += 12; *t && *t != '('; t++) if (*t == 'S' && t[1] >= '0' && t[1] <= '9') w.push_back(t[1] - '0');
      e.S(s); e.S(p); e.S(w);
    }
};
static M* m = nullptr;

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    delete m;
    const ll b = o.A(2);
    sim_us = (b == 0 ? 5000ULL : b == 1 ? 4294967294ULL : (uint64_t) b) * 1000ULL;
    m = new M((ST) o.A(1), (unsigned) o.A(0));
  }
  m->exec(o, e);
}
