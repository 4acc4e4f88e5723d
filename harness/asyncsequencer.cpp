#include <stdarg.h>
#include "vh.h"
#include "AsyncSequencer.h"

static AsyncSequencer* q = nullptr;
static StepSequenceList* steps = nullptr;
static int n = 0, dres[32], pres[32], called[64];

static uint32_t mask(const VI& v) { uint32_t m = 0; for (ll b : v) m |= 1UL << b; return m; }
static VI bits(uint32_t m) { VI v; for (int i = 0; i < 32; i++) if ((m >> i) & 1) v.push_back(i); return v; }

void vh_exec(const Op& o, Ev& e) {
  if (o.is("new")) {
    delete q;
    for (int i = 0; i < n; i++) steps[i].~StepSequenceList();
    free(steps);
    n = (int) o.a.size();
    steps = (StepSequenceList*) malloc(sizeof(StepSequenceList) * (size_t) n);
    for (int i = 0; i < n; i++)
      new (steps + i) StepSequenceList{ (uint32_t) (1UL << o.a[i]), "step", mask(o.d[i]),
        [i]() { called[i]++; return dres[i]; }, [i]() { called[32 + i]++; return pres[i]; } };
    q = new AsyncSequencer(steps, (uint32_t) n);
    e.R(q->stepCount());
  }
  else if (o.is("request")) { q->requestSteps(mask(o.a)); e.R(0); }
  else if (o.is("resetsteps")) { q->resetSteps(mask(o.a)); e.R(0); }
  else if (o.is("resetall")) { q->resetSequencer(); e.R(0); }
  else if (o.is("setstate")) { q->setState(mask(o.d[0]), mask(o.d[1]), mask(o.d[2]), mask(o.d[3]), mask(o.d[4])); e.R(0); }
  else if (o.is("poll")) {
    memset(called, 0, sizeof(called));
    for (int i = 0; i < n; i++) { dres[i] = (int) o.d[0][i]; pres[i] = (int) o.d[1][i]; }
    e.R(q->poll());
    for (int i = 0; i < n; i++) e.R(called[i]);
    for (int i = 0; i < n; i++) e.R(called[32 + i]);
  }
  else if (o.is("mask")) {
    const uint32_t m = mask(o.a);
    e.R(q->all_steps_have_run(m)); e.R(q->all_steps_have_passed(m)); e.R(q->all_steps_still_running(m)); e.R(q->all_steps_dispatched(m));
  }
  uint32_t r, a, u, c, p;
  q->getState(&r, &a, &u, &c, &p);
  e.S(bits(r)); e.S(bits(a)); e.S(bits(u)); e.S(bits(c)); e.S(bits(p));
  VI s;
  s.push_back(q->steps_running()); s.push_back(q->request_fulfilled()); s.push_back(q->request_completed());
  s.push_back(q->all_steps_have_run()); s.push_back(q->all_steps_have_passed());
  e.S(s);
  e.S(bits(q->failed_steps(true))); e.S(bits(q->failed_steps(false)));
}
