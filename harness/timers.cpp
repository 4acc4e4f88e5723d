#include "vh.h"
#include "TimerTools/TimerTools.h"

static PeriodicTimeout* t = nullptr;
static StopWatch* w = nullptr;

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    delete t; delete w;
    // base: 0 ordinary; 1 just before the clock in question wraps; 2 just before 2^31; otherwise scattered
    const uint64_t unit = o.A(0) ? 1000 : 1;
    const uint64_t b = (uint64_t) o.A(1);
    sim_us = b == 0 ? 5000000 : b == 1 ? 4294967294ULL * unit : b == 2 ? 2147483646ULL * unit : (b * 2654435761ULL % 4294967291ULL) * unit;
    sim_us -= sim_us % 1000;
    w = new StopWatch();
    if (o.A(0)) t = new MillisTimeout((unsigned long) o.A(2)); else t = new MicrosTimeout((unsigned long) o.A(2));
    t->reset();
    e.R(0);
  }
  else if (o.is("wait")) { sim_us += 1000ULL * (uint64_t) o.A(0) + (uint64_t) o.A(1); e.R(0); }
  else if (o.is("reset")) { t->reset(); e.R(0); }
  else if (o.is("resetp")) { t->reset((unsigned long) o.A(0)); e.R(0); }
  else if (o.is("period")) { t->period((unsigned long) o.A(0)); e.R(0); }
  else if (o.is("trigger")) { t->trigger(); e.R(0); }
  else if (o.is("start")) { w->markStart(); e.R(0); }
  else if (o.is("stop")) e.R(w->markStop());
  else if (o.is("clear")) { w->reset(); e.R(0); }
  VI s, v;
  s.push_back(t->period()); s.push_back(t->enabled()); s.push_back(t->expired()); s.push_back(t->remaining());
  v.push_back(w->executions()); v.push_back(w->lastTime()); v.push_back(w->executions() ? (ll) w->bestTime() : -1);
  v.push_back(w->worstTime()); v.push_back(w->totalTime()); v.push_back(w->meanTime());
  e.S(s); e.S(v);
}
