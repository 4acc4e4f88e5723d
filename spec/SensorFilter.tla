---------------------------- MODULE SensorFilter ----------------------------
(* A filter over the most recent samples (numbers, or vectors of three), its output by strategy, and statistics over the full window. *)
(* A sample is a sequence of as many numbers as the filter has dimensions; numbers are in units the driver chose for the type.        *)
EXTENDS Util, TLC
VARIABLES live, dim, t, u,   \* is there a filter, its dimensions, type of number (code), unit: 0 is one, 1 a large one, 2 a fraction
          own, w, ini,       \* the filter allocates its memory, window as set, initialized
          mem, tot, idx, full,
          dirty, strat, lv, sure,  \* has new output, strategy (0 raw, 1 moving average, 2 moving median), output (doubled unless an average), is it determined
          nm, un, last
vars == <<live, dim, t, u, own, w, ini, mem, tot, idx, full, dirty, strat, lv, sure, nm, un, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
RAW == 0
AVG == 1
MED == 2
Exact == u = 0 /\ ~(t \in {12, 13})     \* whole numbers of one unit
Zero == [i \in 1..dim |-> 0]
Zeros(n) == [i \in 1..n |-> Zero]
Win == IF ini = 1 THEN w ELSE 0
Obs == <<<<live, ini, full, Win, tot, idx, dirty, strat>>, Flat(mem), nm, un>>
Kind == UNCHANGED <<live, dim, t, u, own, nm, un>>
Same == Kind /\ UNCHANGED <<w, ini, mem, tot, idx, full, dirty, strat, lv, sure>>
Wiped(n) == /\ w' = n /\ mem' = Zeros(n) /\ tot' = 0 /\ idx' = 0 /\ full' = 0 /\ lv' = Zero /\ sure' = 1 /\ UNCHANGED <<dirty, strat>> /\ Kind

New(dm, ty, un1, o, n, s) ==
  /\ live' = 1 /\ dim' = dm /\ t' = ty /\ u' = un1 /\ own' = o /\ w' = n /\ ini' = 0 /\ mem' = <<>> /\ tot' = 0 /\ idx' = 0 /\ full' = 0
  /\ dirty' = 0 /\ strat' = s /\ lv' = [i \in 1..dm |-> 0] /\ sure' = 1 /\ nm' = <<>> /\ un' = <<>> /\ Res("new", <<dm, ty, un1, o, n, s>>, <<>>, <<0>>)
\* a filter of its own memory begins (again) with a clean slate
InitF == IF ini = 1 THEN Same /\ Res("init", <<>>, <<>>, <<-99>>)
         ELSE IF own = 0 THEN (IF w = 0 THEN Same /\ Res("init", <<>>, <<>>, <<-1>>)
                               ELSE ini' = 1 /\ mem' = Zeros(w) /\ Kind /\ UNCHANGED <<w, tot, idx, full, dirty, strat, lv, sure>> /\ Res("init", <<>>, <<>>, <<0>>))
         ELSE IF w = 0 THEN ini' = 0 /\ Same /\ Res("init", <<>>, <<>>, <<-1>>)
         ELSE ini' = 1 /\ Wiped(w) /\ Res("init", <<>>, <<>>, <<0>>)
Purge == IF ini = 0 THEN Same /\ Res("purge", <<>>, <<>>, <<-99>>)
         ELSE ini' = 1 /\ Wiped(w) /\ Res("purge", <<>>, <<>>, <<IF w = 0 THEN -1 ELSE 0>>)
Window(n) ==
  CASE ini = 0 -> Same /\ Res("window", <<n>>, <<>>, <<-99>>)
    [] own = 0 /\ n # w -> Same /\ Res("window", <<n>>, <<>>, <<-1>>)
    [] n = w -> ini' = 1 /\ Wiped(w) /\ Res("window", <<n>>, <<>>, <<IF w = 0 THEN -1 ELSE 0>>)
    [] n = 0 -> /\ w' = 0 /\ mem' = <<>> /\ full' = 0 /\ UNCHANGED <<ini, tot, idx, dirty, strat, lv, sure>> /\ Kind /\ Res("window", <<n>>, <<>>, <<0>>)
    [] OTHER -> ini' = 1 /\ Wiped(n) /\ Res("window", <<n>>, <<>>, <<0>>)
\* ---- statistics over the memory, by dimension
Col(m, i) == [k \in 1..Len(m) |-> m[k][i]]
Sum(s) == SumSeq(s)
Sq(s) == SumSeq([k \in 1..Len(s) |-> s[k] * s[k]])
VarN(s) == (Len(s) * Sq(s)) - (Sum(s) * Sum(s))      \* variance times the square of the window
Kth(s, k) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : Cardinality({i \in 1..Len(s) : s[i] < x}) < k /\ k <= Cardinality({i \in 1..Len(s) : s[i] <= x})
Med2(s) == IF Len(s) % 2 = 1 THEN 2 * Kth(s, (Len(s) + 1) \div 2) ELSE Kth(s, Len(s) \div 2) + Kth(s, (Len(s) \div 2) + 1)
Size(x) == IF dim = 1 THEN x[1] ELSE SumSeq([i \in 1..dim |-> x[i] * x[i]])    \* vectors compare by length
All == {mem[k] : k \in 1..w}
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* the average moves by its share toward the sample; in other than whole units, to the nearest
Moved(old, x, y) == LET a == (old * (w - 1)) + x IN IF Exact THEN y = Trunc(a, w) ELSE y - (a \div w) \in 0..1
Lo(old, x) == ((old * (w - 1)) + x) \div w
Feed(x) ==
  IF ini = 0 THEN Same /\ Res("feed", x, <<>>, <<-1>>)
  ELSE IF w = 0 THEN /\ lv' = [i \in 1..dim |-> IF strat = AVG THEN x[i] ELSE 2 * x[i]] /\ sure' = 1 /\ dirty' = 1 /\ full' = (IF dim = 1 THEN 1 ELSE full) /\ Kind
                     /\ UNCHANGED <<w, ini, mem, tot, idx, strat>> /\ Res("feed", x, <<>>, <<1>>)
  ELSE /\ mem' = [mem EXCEPT ![idx + 1] = x] /\ idx' = (idx + 1) % w /\ tot' = tot + 1 /\ full' = (IF idx + 1 = w THEN 1 ELSE full)
       /\ dirty' = (IF full' = 1 THEN 1 ELSE dirty) /\ UNCHANGED <<w, ini, strat>> /\ Kind
       /\ CASE strat = AVG -> sure' = 1 /\ \E y \in [1..dim -> -1..1] : /\ lv' = [i \in 1..dim |-> Lo(lv[i], x[i]) + y[i]]
                                                                         /\ \A i \in 1..dim : Moved(lv[i], x[i], lv'[i])
            [] strat = MED -> sure' = full' /\ lv' = (IF full' = 1 THEN [i \in 1..dim |-> Med2(Col(mem', i))] ELSE Zero)
            [] OTHER -> sure' = 1 /\ lv' = [i \in 1..dim |-> 2 * x[i]]
       /\ Res("feed", x, <<>>, <<full'>>)
\* the memory is filled from the outside, then declared full; this makes no output
Bulk(d) == IF ini = 0 \/ w = 0 \/ Len(d) # w * dim THEN Same /\ Res("bulk", <<>>, <<d>>, <<IF ini = 0 THEN -1 ELSE -99>>)
           ELSE /\ mem' = [k \in 1..w |-> [i \in 1..dim |-> d[((k - 1) * dim) + i]]] /\ idx' = 0 /\ tot' = tot + w /\ full' = 1
                /\ UNCHANGED <<w, ini, dirty, strat, lv, sure>> /\ Kind /\ Res("bulk", <<>>, <<d>>, <<0>>)
Val == /\ dirty' = 0 /\ Kind /\ UNCHANGED <<w, ini, mem, tot, idx, full, strat, lv, sure>>
       /\ IF sure = 0 THEN Res("value", <<>>, <<>>, <<0>>)
          ELSE \E y \in [1..dim -> -1..1] : /\ \A i \in 1..dim : y[i] # 0 <=> (strat = MED /\ Exact /\ lv[i] % 2 = 1)
                                            /\ Res("value", <<>>, <<>>, <<1>> \o [i \in 1..dim |-> lv[i] + y[i]])
Strat(s) == IF s = strat THEN Same /\ Res("strat", <<s>>, <<>>, <<-1>>)
            ELSE strat' = s /\ lv' = Zero /\ sure' = 1 /\ Kind /\ UNCHANGED <<w, ini, mem, tot, idx, full, dirty>> /\ Res("strat", <<s>>, <<>>, <<0>>)
Ready == ini = 1 /\ full = 1 /\ w > 0
Ok2 == Ready /\ w > 1                                 \* of a single sample: left open
MinMax == /\ Same
          /\ IF ~Ready THEN Res("minmax", <<>>, <<>>, <<>>)
             ELSE \E x, y \in All : /\ \A z \in All : Size(x) <= Size(z) /\ Size(z) <= Size(y)
                                    /\ Res("minmax", <<>>, <<>>, x \o y)
Mean == Same /\ Res("mean", <<>>, <<>>, IF Ready THEN [i \in 1..dim |-> Sum(Col(mem, i))] ELSE <<>>)   \* times w
Rms == Same /\ Res("rms", <<>>, <<>>, IF Ok2 THEN [i \in 1..dim |-> Sq(Col(mem, i))] ELSE <<>>)        \* squared, times w
Stdev == Same /\ Res("stdev", <<>>, <<>>, IF Ok2 THEN [i \in 1..dim |-> VarN(Col(mem, i))] ELSE <<>>)  \* squared, times w squared
\* twice the median; whole numbers are rounded, either way
Median == /\ Same
          /\ IF ~Ready \/ dim # 1 THEN Res("median", <<>>, <<>>, <<>>)
             ELSE LET m == Med2(Col(mem, 1)) IN
                  \E y \in {-1, 0, 1} : (y # 0 <=> (Exact /\ m % 2 = 1)) /\ Res("median", <<>>, <<>>, <<m + y>>)
\* squared, a hundredfold, rounded either way
Snr == /\ Same
       /\ IF ~Ok2 \/ dim # 1 \/ u # 0 THEN Res("snr", <<>>, <<>>, <<>>)
          ELSE LET s == Col(mem, 1) IN
               IF VarN(s) = 0 THEN Res("snr", <<>>, <<>>, <<-1>>)
               ELSE LET q == (100 * Sum(s) * Sum(s)) \div VarN(s) IN \E x \in {q - 1, q, q + 1} : Res("snr", <<>>, <<>>, <<x>>)
\* as CBOR: the samples from the oldest place in memory on
Ser == /\ Same
       /\ IF ini = 0 THEN Res("ser", <<>>, <<>>, <<-99>>)
          ELSE Res("ser", <<>>, <<>>, <<0, 1, w, tot, Bit(nm # <<>>), 1>> \o Flat([k \in 1..w |-> mem[((idx + k - 1) % w) + 1]]))
Name(d) == nm' = d /\ UNCHANGED <<live, dim, t, u, own, w, ini, mem, tot, idx, full, dirty, strat, lv, sure, un>> /\ Res("name", <<>>, <<d>>, <<IF d = <<>> THEN -1 ELSE 0>>)
Units(d) == un' = d /\ UNCHANGED <<live, dim, t, u, own, w, ini, mem, tot, idx, full, dirty, strat, lv, sure, nm>> /\ Res("units", <<>>, <<d>>, <<IF d = <<>> THEN -1 ELSE 0>>)
Do(op, a, d) ==
  CASE op = "new" -> New(a[1], a[2], a[3], a[4], a[5], a[6]) [] op = "init" -> InitF [] op = "purge" -> Purge [] op = "window" -> Window(a[1])
    [] op = "feed" -> Feed(a) [] op = "bulk" -> Bulk(d[1]) [] op = "value" -> Val [] op = "strat" -> Strat(a[1])
    [] op = "minmax" -> MinMax [] op = "mean" -> Mean [] op = "rms" -> Rms [] op = "stdev" -> Stdev [] op = "median" -> Median [] op = "snr" -> Snr
    [] op = "name" -> Name(d[1]) [] op = "units" -> Units(d[1]) [] op = "ser" -> Ser [] op = "print" -> Same /\ Res("print", <<>>, <<>>, <<0>>) [] OTHER -> FALSE
Init == /\ live = 0 /\ dim = 1 /\ t = 0 /\ u = 0 /\ own = 1 /\ w = 0 /\ ini = 0 /\ mem = <<>> /\ tot = 0 /\ idx = 0 /\ full = 0
        /\ dirty = 0 /\ strat = 0 /\ lv = <<0>> /\ sure = 1 /\ nm = <<>> /\ un = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
