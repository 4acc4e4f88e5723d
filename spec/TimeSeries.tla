----------------------------- MODULE TimeSeries -----------------------------
(* A window over the most recent samples of a series, statistics over the full window, and the series through CBOR. *)
EXTENDS Util, TLC
VARIABLES live, t,         \* is there a series, of which type (code)
          base,            \* added to each sample by the driver (to reach the ends of the type); all numbers here are relative to it
          own,             \* the series allocates its memory
          w, ini,          \* window as set, initialized
          mem, tot, idx,   \* sample memory, samples ever, next place
          tr,              \* low 16 bits of tot when last marked clean
          nm, un, last
vars == <<live, t, base, own, w, ini, mem, tot, idx, tr, nm, un, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> d, r |-> r]
Float == t \in {12, 13}
Full == ini = 1 /\ tot >= w
Win == IF ini = 1 THEN w ELSE 0
Obs == <<<<live, ini, Bit(Full), Win, tot, idx, IF ini = 1 THEN Bit(tr # tot % 65536) ELSE 0>>, mem, nm, un>>
Zeros(n) == [i \in 1..n |-> 0]
Same == UNCHANGED <<live, t, base, own, w, ini, mem, tot, idx, tr, nm, un>>
Meta == UNCHANGED <<live, t, base, own, nm, un>>
Wiped(n) == /\ w' = n /\ ini' = 1 /\ mem' = Zeros(n) /\ tot' = 0 /\ idx' = 0 /\ tr' = 0
Touch == IF Full THEN tot % 65536 ELSE tr

New(ty, o, n, b) == /\ live' = 1 /\ t' = ty /\ own' = o /\ w' = n /\ base' = b /\ ini' = 0 /\ mem' = <<>> /\ tot' = 0 /\ idx' = 0 /\ tr' = 0 /\ nm' = <<>> /\ un' = <<>>
                    /\ Res("new", <<ty, o, n, b>>, <<>>, <<0>>)
InitS == IF w = 0 THEN Same /\ Res("init", <<>>, <<>>, <<-1>>)
         ELSE Wiped(w) /\ Meta /\ Res("init", <<>>, <<>>, <<0>>)
\* zeroes the samples
Purge == IF ini = 1 THEN Wiped(w) /\ Meta /\ Res("purge", <<>>, <<>>, <<0>>) ELSE Same /\ Res("purge", <<>>, <<>>, <<-99>>)
Window(n) ==
  CASE own = 0 /\ ini = 0 -> Same /\ Res("window", <<n>>, <<>>, <<-99>>)
    [] n = w -> IF ini = 1 THEN Wiped(w) /\ Meta /\ Res("window", <<n>>, <<>>, <<0>>)
                ELSE Same /\ Res("window", <<n>>, <<>>, <<-1>>)
    [] own = 0 -> Same /\ Res("window", <<n>>, <<>>, <<-1>>)
    [] n = 0 -> /\ w' = 0 /\ ini' = 0 /\ mem' = <<>> /\ tot' = 0 /\ idx' = 0 /\ tr' = tr /\ Meta /\ Res("window", <<n>>, <<>>, <<0>>)
    [] OTHER -> Wiped(n) /\ Meta /\ Res("window", <<n>>, <<>>, <<0>>)
Put(x) == mem' = [mem EXCEPT ![idx + 1] = x]
Feed(x) == IF ini = 0 THEN Same /\ Res("feed", <<x>>, <<>>, <<-1>>)
           ELSE /\ Put(x) /\ idx' = (idx + 1) % w /\ tot' = tot + 1 /\ UNCHANGED <<w, ini, tr>> /\ Meta
                /\ Res("feed", <<x>>, <<>>, <<Bit(tot + 1 >= w)>>)
\* the memory is filled from the outside, then declared full
Bulk(d) == IF ini = 0 \/ Len(d) # w THEN Same /\ Res("bulk", <<>>, <<d>>, <<IF ini = 0 THEN -1 ELSE -99>>)
           ELSE mem' = d /\ tot' = tot + w /\ UNCHANGED <<w, ini, idx, tr>> /\ Meta /\ Res("bulk", <<>>, <<d>>, <<1>>)
Newest == mem[(IF idx = 0 THEN w ELSE idx)]
Val == /\ tr' = Touch /\ UNCHANGED <<w, ini, mem, tot, idx>> /\ Meta
       /\ Res("value", <<>>, <<>>, IF Full THEN <<Newest>> ELSE <<>>)
\* k-th newest, k from 0
Nth(k) == mem[((idx + (2 * w) - 1 - k) % w) + 1]
Copy(cnt, off, abs) ==
  IF abs = 0 /\ off # 0 THEN Same /\ Res("copy", <<cnt, off, abs>>, <<>>, <<-99>>)
  ELSE IF ini = 1 /\ cnt > 0 /\ cnt <= w /\ tot >= cnt + off
  THEN /\ tr' = tot % 65536 /\ UNCHANGED <<w, ini, mem, tot, idx>> /\ Meta
       /\ Res("copy", <<cnt, off, abs>>, <<>>, <<0>> \o [i \in 1..cnt |-> IF abs = 1 THEN mem[((off + i - 1) % w) + 1] ELSE Nth(cnt - i)])
  ELSE Same /\ Res("copy", <<cnt, off, abs>>, <<>>, <<-1>>)
Which(m) == Same /\ Res("which", <<m>>, <<>>, <<IF ini = 1 /\ m < w /\ m < tot THEN tot - 1 - ((idx + (2 * w) - 1 - m) % w) ELSE 0>>)
\* ---- statistics over the full window
Sum == SumSeq(mem)
SumSq == SumSeq([i \in 1..w |-> mem[i] * mem[i]])
VarN == (w * SumSq) - (Sum * Sum)                    \* w squared times the variance
Least == CHOOSE x \in {mem[i] : i \in 1..w} : \A i \in 1..w : x <= mem[i]
Most == CHOOSE x \in {mem[i] : i \in 1..w} : \A i \in 1..w : x >= mem[i]
Below(x) == Cardinality({i \in 1..w : mem[i] < x})
UpTo(x) == Cardinality({i \in 1..w : mem[i] <= x})
\* the k-th smallest, k from 1
Kth(k) == CHOOSE x \in {mem[i] : i \in 1..w} : Below(x) < k /\ k <= UpTo(x)
Med2 == IF w % 2 = 1 THEN 2 * Kth((w + 1) \div 2) ELSE Kth(w \div 2) + Kth((w \div 2) + 1)
MinMax == Same /\ Res("minmax", <<>>, <<>>, IF Full THEN <<Least, Most>> ELSE <<>>)
Mean == Same /\ Res("mean", <<>>, <<>>, IF Full THEN <<Sum>> ELSE <<>>)                       \* times w
Ok2 == Full /\ w > 1                                  \* of a single sample: left open
Rms == Same /\ Res("rms", <<>>, <<>>, IF Ok2 /\ base = 0 THEN <<SumSq>> ELSE <<>>)            \* squared, times w
Stdev == Same /\ Res("stdev", <<>>, <<>>, IF Ok2 THEN <<VarN>> ELSE <<>>)                     \* squared, times w squared
\* twice the median; in integers it is rounded, either way
Median == /\ Same
          /\ IF ~Ok2 THEN Res("median", <<>>, <<>>, <<>>)
             ELSE IF Float \/ Med2 % 2 = 0 THEN Res("median", <<>>, <<>>, <<Med2>>)
             ELSE \E x \in {Med2 - 1, Med2 + 1} : Res("median", <<>>, <<>>, <<x>>)
\* a hundredfold, rounded either way
Snr == /\ Same
       /\ IF ~Ok2 \/ base # 0 THEN Res("snr", <<>>, <<>>, <<>>)
          ELSE IF VarN = 0 THEN Res("snr", <<>>, <<>>, <<-1>>)
          ELSE LET q == (100 * Sum * Sum) \div VarN IN \E x \in {q - 1, q, q + 1} : Res("snr", <<>>, <<>>, <<x>>)
Clean == IF live = 1 THEN tr' = tot % 65536 /\ UNCHANGED <<w, ini, mem, tot, idx>> /\ Meta /\ Res("clean", <<>>, <<>>, <<0>>) ELSE FALSE
Name(d) == nm' = d /\ UNCHANGED <<live, t, base, own, w, ini, mem, tot, idx, tr, un>> /\ Res("name", <<>>, <<d>>, <<IF d = <<>> THEN -1 ELSE 0>>)
Units(d) == un' = d /\ UNCHANGED <<live, t, base, own, w, ini, mem, tot, idx, tr, nm>> /\ Res("units", <<>>, <<d>>, <<IF d = <<>> THEN -1 ELSE 0>>)
\* the series goes through CBOR, and what comes out takes its place: the same samples in order of age, the same count, name and unit
Trip == IF ~Full THEN Same /\ Res("trip", <<>>, <<>>, <<-99>>)
        ELSE /\ own' = 1 /\ ini' = 1 /\ w' = w /\ mem' = [i \in 1..w |-> Nth(w - i)] /\ tot' = tot /\ idx' = 0 /\ tr' = 0
             /\ UNCHANGED <<live, t, base, nm, un>> /\ Res("trip", <<>>, <<>>, <<0>>)
\* whatever is offered as a series does no harm
Probe(d) == Same /\ Res("probe", <<>>, <<d>>, <<0>>)
Do(op, a, d) ==
  CASE op = "new" -> New(a[1], a[2], a[3], a[4]) [] op = "init" -> InitS [] op = "purge" -> Purge [] op = "window" -> Window(a[1])
    [] op = "feed" -> Feed(a[1]) [] op = "bulk" -> Bulk(d[1]) [] op = "value" -> Val [] op = "copy" -> Copy(a[1], a[2], a[3]) [] op = "which" -> Which(a[1])
    [] op = "minmax" -> MinMax [] op = "mean" -> Mean [] op = "rms" -> Rms [] op = "stdev" -> Stdev [] op = "median" -> Median [] op = "snr" -> Snr
    [] op = "clean" -> Clean [] op = "name" -> Name(d[1]) [] op = "units" -> Units(d[1]) [] op = "trip" -> Trip [] op = "probe" -> Probe(d[1]) [] OTHER -> FALSE
Init == /\ live = 0 /\ t = 0 /\ base = 0 /\ own = 1 /\ w = 0 /\ ini = 0 /\ mem = <<>> /\ tot = 0 /\ idx = 0 /\ tr = 0 /\ nm = <<>> /\ un = <<>>
        /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
