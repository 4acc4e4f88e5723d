#include "vh.h"
#include "LightLinkedList.h"

struct Item { int x; };
static Item items[256];
static Item* it(ll v) { return v ? &items[v] : nullptr; }
static int id(Item* p) { return p ? (int) (p - items) : 0; }
static LinkedList<Item*>* q = nullptr;
static ll base = 0;

void vh_exec(const Op& o, Ev& e) {
  VI s;
  if (o.is("new")) { delete q; q = nullptr; base = heap_now(); q = new LinkedList<Item*>(); e.R(0); }
  else if (o.is("end")) { delete q; q = nullptr; e.R(heap_now() - base); }
  else if (o.is("insert")) e.R(q->insert(it(o.A(0))));
  else if (o.is("head")) e.R(q->insertAtHead(it(o.A(0))));
  else if (o.is("pop")) e.R(id(q->remove()));
  else if (o.is("removeat")) e.R(id(q->remove((int) o.A(0))));
  else if (o.is("removeval")) e.R(q->remove(it(o.A(0))));
  else if (o.is("clear")) e.R(q->clear());
  else if (o.is("get")) e.R(id(q->get()));
  else if (o.is("getat")) e.R(id(q->get((int) o.A(0))));
  else if (o.is("has")) e.R(q->hasNext());
  else if (o.is("contains")) e.R(q->contains(it(o.A(0))));
  if (q) { for (int i = 0; q->get(i) && i < 4000; i++) s.push_back(id(q->get(i))); }
  e.S(s);
  VI n; n.push_back(q ? q->size() : 0); e.S(n);
}
