#include "vh.h"
#include "PriorityQueue.h"

struct Item { int x; };
static Item items[256];
static Item* it(ll v) { return v ? &items[v] : nullptr; }
static int id(Item* p) { return p ? (int) (p - items) : 0; }
static PriorityQueue<Item*>* q = nullptr;
static ll base = 0;

void vh_exec(const Op& o, Ev& e) {
  VI s;
  if (o.is("new")) { delete q; q = nullptr; base = heap_now(); q = new PriorityQueue<Item*>(); e.R(0); }
  else if (o.is("end")) { delete q; q = nullptr; e.R(heap_now() - base); }
  else if (o.is("insert")) e.R(o.A(1) ? q->insert(it(o.A(0)), (int) o.A(1)) : q->insert(it(o.A(0))));
  else if (o.is("absent")) e.R(o.A(1) ? q->insertIfAbsent(it(o.A(0)), (int) o.A(1)) : q->insertIfAbsent(it(o.A(0))));
  else if (o.is("dequeue")) e.R(id(q->dequeue()));
  else if (o.is("recycle")) e.R(id(q->recycle()));
  else if (o.is("inc")) e.R(q->incrementPriority(it(o.A(0))));
  else if (o.is("dec")) e.R(q->decrementPriority(it(o.A(0))));
  else if (o.is("bypri")) e.R(id(q->getByPriority((int) o.A(0))));
  else if (o.is("pos")) e.R(q->getPosition(it(o.A(0))));
  else if (o.is("prival")) e.R(q->getPriority(it(o.A(0))));
  else if (o.is("pripos")) e.R(q->getPriority((int) o.A(0)));
  else if (o.is("removeat")) e.R(q->remove((int) o.A(0)));
  else if (o.is("removeval")) e.R(q->remove(it(o.A(0))));
  else if (o.is("clear")) e.R(q->clear());
  else if (o.is("get")) e.R(id(q->get()));
  else if (o.is("getat")) e.R(id(q->get((int) o.A(0))));
  else if (o.is("has")) e.R(q->hasNext());
  else if (o.is("contains")) e.R(q->contains(it(o.A(0))));
  if (q) { for (int i = 0; q->get(i) && i < 4000; i++) s.push_back(id(q->get(i))); }
  e.S(s);
  VI p; for (size_t i = 0; i < s.size(); i++) p.push_back(q->getPriority((int) i));
  e.S(p);
  VI n; n.push_back(q ? q->size() : 0); e.S(n);
}
