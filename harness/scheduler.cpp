#include <functional>
#include "vh.h"
#include "TimerTools/C3PScheduler.h"

// Every episode runs in a process of its own (VF_FORK): the scheduler is a singleton.
static C3PScheduler* sch = nullptr;
static uint32_t base = 0;
static VI log_;
static std::vector<C3PSchedule*> order;

struct Slot {
  C3PSchedule* p; ll scr[5];
  Slot() : p(nullptr) { clear(); }
  void clear() { scr[0] = scr[1] = scr[2] = 0; scr[3] = -1; scr[4] = -2; }
};
static Slot slot[10];

static int8_t run(int i) {
  Slot& x = slot[i];
  const ll c[5] = { x.scr[0], x.scr[1], x.scr[2], x.scr[3], x.scr[4] };
  x.clear();
  log_.push_back(i); log_.push_back((int32_t) ((uint32_t) micros() - base));
  sim_us += (uint64_t) c[0];
  if (c[1]) sch->advanceScheduler();
  sim_us += (uint64_t) c[2];
  if (c[3] != -1) x.p->enabled(c[3] == 1);
  if (c[4] != -2) x.p->recurrence((int32_t) c[4]);
  x.p->delay();           // has no effect during execution
  x.p->delay(1000);
  return 0;
}
struct Poll : public C3PPollable { int i; explicit Poll(int n) : i(n) {} PollResult poll() { run(i); return PollResult::NO_ACTION; } };

void vh_exec(const Op& o, Ev& e) {
  const int i = (int) o.A(0);
  if (o.is("new")) {
    // offsets end in 7 so that no reading of the clock in the episode is zero, the "unset" mark of nextExec()
    const ll b = o.A(0);
    base = b == 0 ? 5000007u : b == 1 ? 4294967287u : b == 2 ? 2147483647u : (uint32_t) b / 10 * 10 + 7;
    if (b == 1 || b == 2) base -= 4;
    sim_us = base;
    sch = C3PScheduler::getInstance();
    e.R(sch->scheduleCount());
  }
  else if (o.is("make")) {
    if (i % 2) slot[i].p = new C3PScheduledPolling("p", (uint32_t) o.A(1), (int32_t) o.A(2), 0 != o.A(3), new Poll(i));
    else slot[i].p = new C3PScheduledLambda("l", (uint32_t) o.A(1), (int32_t) o.A(2), 0 != o.A(3), [i]() { return run(i); });
    e.R(0);
  }
  else if (o.is("add")) e.R(sch->addSchedule(slot[i].p));
  else if (o.is("tick")) { sch->advanceScheduler(); e.R(0); }
  else if (o.is("service")) { log_.clear(); sch->serviceSchedules(); for (ll x : log_) e.R(x); }
  else if (o.is("wait")) { sim_us += (uint64_t) o.A(0); e.R(0); }
  else if (o.is("enable")) {
    if (o.A(1) == 1 && slot[i].p->nextExec() == 0) e.R(-9);
    else { slot[i].p->enabled(o.A(1) == 1); e.R(0); }
  }
  else if (o.is("delay")) { slot[i].p->delay(); e.R(0); }
  else if (o.is("delayby")) {
    if (slot[i].p->enabled() && slot[i].p->nextExec() == 0) e.R(-9);
    else { slot[i].p->delay((unsigned) o.A(1)); e.R(0); }
  }
  else if (o.is("setrec")) { slot[i].p->recurrence((int32_t) o.A(1)); e.R(0); }
  else if (o.is("setper")) { slot[i].p->period((unsigned) o.A(1)); e.R(0); }
  else if (o.is("script")) { for (int k = 0; k < 5; k++) slot[i].scr[k] = o.A(1 + (size_t) k); e.R(0); }
  else if (o.is("has")) e.R(sch->containsSchedule(slot[i].p));
  VI a;
  for (unsigned k = 0; k < sch->scheduleCount(); k++)
    for (int j = 0; j < 10; j++) if (slot[j].p && sch->getScheduleByIndex(k) == slot[j].p) a.push_back(j);
  e.S(a);
  for (int j = 0; j < 10; j++) {
    VI v;
    C3PSchedule* p = slot[j].p;
    if (p) {
      v.push_back(p->enabled()); v.push_back(p->recurrence()); v.push_back(p->willRunAgain());
      v.push_back(p->lastExec() == 0 ? -1 : (int32_t) (p->lastExec() - base));
      v.push_back(p->nextExec() == 0 ? -1 : (int32_t) (p->nextExec() - base));
      v.push_back(p->profiler.executions()); v.push_back(p->period());
    }
    e.S(v);
  }
}
