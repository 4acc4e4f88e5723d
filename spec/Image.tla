---------------------------- MODULE Image ----------------------------
(* Images: a rectangle of pixels in one of several formats, read and written through an orientation; the shapes and the text drawn
   on them; and their serialized form.  A shape is given as the set of the positions that it covers. *)
EXTENDS Util, Font, TLC
VARIABLES im,            \* [w, h, fmt, own (0 no buffer, 1 its own, 2 another's), px, fx, fy, wrap, cp]
          rot, tx,       \* orientation (quarter turns); text: [x, y, size, fg, bg, font]
          wire,          \* the last thing serialized
          last
vars == <<im, rot, tx, wire, last>>
Res(op, a, d, r) == last' = [op |-> op, a |-> a, d |-> (IF d = <<>> THEN <<>> ELSE <<d>>), r |-> r]
NoImage == [w |-> 0, h |-> 0, fmt |-> 0, own |-> 0, px |-> <<>>, fx |-> 0, fy |-> 0, wrap |-> 0, cp |-> 0]
\* a small custom font: characters 65 to 67
Font3 == [first |-> 65, adv |-> 6, gl |->
          << [w |-> 3, h |-> 4, adv |-> 4, xo |-> 0, yo |-> -3, bits |-> <<1,0,1, 0,1,0, 1,1,1, 1,0,0>>],
             [w |-> 5, h |-> 3, adv |-> 5, xo |-> -1, yo |-> -2, bits |-> <<1,1,1,1,1, 0,1,0,0,1, 1,0,0,0,1>>],
             [w |-> 0, h |-> 0, adv |-> 3, xo |-> 0, yo |-> 0, bits |-> <<>>] >>]
NoText == [x |-> 0, y |-> 0, size |-> 0, fg |-> 0, bg |-> 0, font |-> 0, fn |-> Font3]
\* ---- formats: 1 monochrome, 2 grey 24, 3 grey 16, 4 grey 8, 5 grey 4 (not supported), 6 RGBA, 7 RGB, 8 565, 9 332
Bpp(f) == CASE f = 1 -> 1 [] f = 5 -> 4 [] f \in {4, 9} -> 8 [] f \in {3, 8} -> 16 [] f \in {2, 7} -> 24 [] f = 6 -> 32 [] OTHER -> 0
Bytes(w, h, f) == (w * h * Bpp(f) + 7) \div 8
ByteOf(c, k) == (c \div (CASE k = 3 -> 16777216 [] k = 2 -> 65536 [] k = 1 -> 256 [] OTHER -> 1)) % 256
Word(b3, b2, b1, b0) == (IF b3 > 127 THEN b3 - 256 ELSE b3) * 16777216 + b2 * 65536 + b1 * 256 + b0      \* 32 bits, as a signed number
Kept(f, c) == CASE f = 1 -> (IF c = 0 THEN 0 ELSE -1) [] f \in {4, 9} -> c % 256 [] f \in {3, 8} -> c % 65536
                [] f \in {2, 7} -> c % 16777216 [] f = 6 -> c [] OTHER -> 0
\* ---- orientation: where in the buffer a position is, and what position it has
Native(I, r, p) == LET q == CASE r = 1 -> <<p[2], p[1]>> [] r = 2 -> <<I.w - 1 - p[1], I.h - 1 - p[2]>>
                              [] r = 3 -> <<p[2], I.h - 1 - p[1]>> [] OTHER -> p IN
                   <<IF I.fx = 1 THEN I.w - 1 - q[1] ELSE q[1], IF I.fy = 1 THEN I.h - 1 - q[2] ELSE q[2]>>
Logical(I, r, n) == LET q == <<IF I.fx = 1 THEN I.w - 1 - n[1] ELSE n[1], IF I.fy = 1 THEN I.h - 1 - n[2] ELSE n[2]>> IN
                    CASE r = 1 -> <<q[2], q[1]>> [] r = 2 -> <<I.w - 1 - q[1], I.h - 1 - q[2]>> [] r = 3 -> <<I.h - 1 - q[2], q[1]>> [] OTHER -> q
\* (monochrome rows come in groups of eight)
Usable(I, n) == /\ I.own # 0 /\ n[1] >= 0 /\ n[2] >= 0 /\ n[1] < I.w /\ n[2] < I.h /\ I.fmt \notin {0, 5}
                /\ (I.fmt = 1 => n[2] < I.h - (I.h % 8))
Idx(I, n) == n[2] * I.w + n[1] + 1
Get(I, r, p) == LET n == Native(I, r, p) IN IF Usable(I, n) THEN I.px[Idx(I, n)] ELSE 0
Put(I, r, p, c) == LET n == Native(I, r, p) IN IF Usable(I, n) THEN <<[I EXCEPT !.px[Idx(I, n)] = Kept(I.fmt, c)], 1>> ELSE <<I, 0>>
\* every position p gets the colour c(p), unless that is <<>>
Paint(I, r, c(_)) == IF I.own = 0 \/ I.fmt \in {0, 5} THEN I
  ELSE [I EXCEPT !.px = TLCEval([i \in 1..(I.w * I.h) |->
         LET n == <<(i - 1) % I.w, (i - 1) \div I.w>>  k == c(Logical(I, r, n)) IN
         IF Usable(I, n) /\ k # <<>> THEN Kept(I.fmt, k[1]) ELSE I.px[i]])]
Cover(I, r, on(_), c) == Paint(I, r, LAMBDA p : IF on(p) THEN <<c>> ELSE <<>>)
\* ---- shapes
Abs(x) == IF x < 0 THEN -x ELSE x
Trunc(x, y) == IF x < 0 THEN -((-x) \div y) ELSE x \div y           \* towards zero (0 < y)
InRect(p, x, y, w, h) == p[1] >= x /\ p[1] < x + w /\ p[2] >= y /\ p[2] < y + h
OnEdge(p, x, y, w, h) == InRect(p, x, y, w, h) /\ (p[1] \in {x, x + w - 1} \/ p[2] \in {y, y + h - 1})
\* one pixel for each step along the longer side, nearest to the true line
OnLine(p, x0, y0, x1, y1) ==
  LET steep == Abs(y1 - y0) > Abs(x1 - x0)
      a == IF steep THEN <<y0, x0>> ELSE <<x0, y0>>
      b == IF steep THEN <<y1, x1>> ELSE <<x1, y1>>
      q == IF steep THEN <<p[2], p[1]>> ELSE p
      f == IF a[1] > b[1] THEN b ELSE a
      t == IF a[1] > b[1] THEN a ELSE b
      dx == t[1] - f[1]  dy == Abs(t[2] - f[2])  k == q[1] - f[1]
      up == IF k * dy <= dx \div 2 THEN 0 ELSE (k * dy - (dx \div 2) + dx - 1) \div dx IN
  /\ q[1] >= f[1] /\ q[1] <= t[1]
  /\ q[2] = (IF f[2] < t[2] THEN f[2] + up ELSE f[2] - up)
\* a circle: from the top of the quadrant outwards, the pixel whose middle is inside
RECURSIVE Arc(_, _, _)
Arc(x, y, r) == IF x >= y THEN {} ELSE LET y2 == IF (x + 1) * (x + 1) + y * y - y >= r * r THEN y - 1 ELSE y IN {<<x + 1, y2>>, <<y2, x + 1>>} \cup Arc(x + 1, y2, r)
Circle(r) == Arc(0, r, r) \cup {<<0, r>>, <<r, 0>>}
Half(C, c) == LET S == { q[2] : q \in { q \in C : q[1] = c } } IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
OnCircle(C, p, x, y) == <<Abs(p[1] - x), Abs(p[2] - y)>> \in C
InCircle(C, p, x, y) == Abs(p[2] - y) <= Half(C, Abs(p[1] - x))
Radius(w, h, r) == MinI(r, MinI(w, h) \div 2)
OnRound(A, p, x, y, w, h, r) ==         \* A: the corners' arcs
  \/ (p[2] \in {y, y + h - 1} /\ p[1] >= x + r /\ p[1] < x + w - r) \/ (p[1] \in {x, x + w - 1} /\ p[2] >= y + r /\ p[2] < y + h - r)
  \/ \E q \in A : p[1] \in {x + r - q[1], x + w - r - 1 + q[1]} /\ p[2] \in {y + r - q[2], y + h - r - 1 + q[2]}
                  
InRound(C, p, x, y, w, h, r) ==
  LET c == IF p[1] < x + r THEN x + r - p[1] ELSE IF p[1] > x + w - r - 1 THEN p[1] - (x + w - r - 1) ELSE 0
      k == IF c = 0 THEN r ELSE Half(C, c) IN
  /\ p[1] >= x /\ p[1] < x + w /\ (c = 0 \/ k >= 0) /\ p[2] >= y + r - k /\ p[2] <= y + h - r - 1 + k
\* a triangle is filled row by row
InTriangle(p, v0, v1, v2) ==
  LET s1 == IF v0[2] > v1[2] THEN <<v1, v0, v2>> ELSE <<v0, v1, v2>>
      s2 == IF s1[2][2] > s1[3][2] THEN <<s1[1], s1[3], s1[2]>> ELSE s1
      t == IF s2[1][2] > s2[2][2] THEN <<s2[2], s2[1], s2[3]>> ELSE s2
      At(u, v) == u[1] + Trunc((v[1] - u[1]) * (p[2] - u[2]), v[2] - u[2])
      Row == IF t[1][2] = t[3][2] THEN {t[1][1], t[2][1], t[3][1]}
             ELSE IF (t[2][2] = t[3][2] /\ t[1][2] # t[2][2]) \/ p[2] < t[2][2] THEN {At(t[1], t[2]), At(t[1], t[3])}
             ELSE {At(t[2], t[3]), At(t[1], t[3])} IN
  /\ p[2] >= t[1][2] /\ p[2] <= t[3][2]
  /\ (\E a \in Row : a <= p[1]) /\ (\E a \in Row : a >= p[1])
\* ---- text
BitAt(b, k) == (b \div (2 ^ k)) % 2
\* of a character of the classic font at (x, y): the colour of position p
Classic(I, p, x, y, c0, fg, bg, sz) ==
  LET c == IF I.cp = 0 /\ c0 >= 176 THEN (c0 + 1) % 256 ELSE c0
      col == (p[1] - x) \div sz  row == (p[2] - y) \div sz
      on == col < 5 /\ BitAt(Font5x7[c * 5 + col + 1], row) = 1 IN
  IF ~InRect(p, x, y, 6 * sz, 8 * sz) THEN <<>> ELSE IF on THEN <<fg>> ELSE IF bg # fg THEN <<bg>> ELSE <<>>
CharClassic(I, r, x, y, c, fg, bg, sz) == IF x >= I.w \/ y >= I.h \/ sz = 0 THEN I ELSE Paint(I, r, LAMBDA p : Classic(I, p, x, y, c, fg, bg, sz))
Has(F, c) == c >= F.first /\ c < F.first + Len(F.gl)
Glyph(F, c) == F.gl[c - F.first + 1]
Custom(g, p, x, y, sz) ==
  LET col == (p[1] - x - g.xo * sz) \div sz  row == (p[2] - y - g.yo * sz) \div sz IN
  InRect(p, x + g.xo * sz, y + g.yo * sz, g.w * sz, g.h * sz) /\ g.bits[row * g.w + col + 1] = 1
CharCustom(I, r, g, x, y, fg, sz) == IF sz = 0 THEN I ELSE Cover(I, r, LAMBDA p : Custom(g, p, x, y, sz), fg)
\* one character at the cursor: <<image, text>>
Type1(I, r, T, c) ==
  LET wide == I.wrap = 1 /\ T.x + T.size * 6 > I.w
      U == IF wide THEN [T EXCEPT !.x = 0, !.y = @ + T.size * 8] ELSE T IN
  <<CharClassic(I, r, U.x, U.y, c, T.fg, T.bg, T.size), [U EXCEPT !.x = @ + T.size * 6]>>
Type(I, r, T, c) ==
  IF T.font = 0 THEN
    CASE c = 10 -> <<I, [T EXCEPT !.x = 0, !.y = @ + T.size * 8]>>
      [] c = 13 -> <<I, T>>
      [] c = 9 -> LET x == Type1(I, r, T, 32) IN Type1(x[1], r, x[2], 32)
      [] OTHER -> Type1(I, r, T, c)
  ELSE IF c = 10 THEN <<I, [T EXCEPT !.x = 0, !.y = @ + T.size * T.fn.adv]>>
  ELSE IF ~Has(T.fn, c) THEN <<I, T>>
  ELSE LET g == Glyph(T.fn, c)
           U == IF g.w > 0 /\ I.wrap = 1 /\ T.x + T.size * (g.xo + g.w) > I.w THEN [T EXCEPT !.x = 0, !.y = @ + T.size * T.fn.adv] ELSE T IN
       <<IF g.w > 0 THEN CharCustom(I, r, g, U.x, U.y, T.fg, T.size) ELSE I, [U EXCEPT !.x = @ + g.adv * T.size]>>
RECURSIVE TypeAll(_, _, _, _)
TypeAll(I, r, T, s) == IF s = <<>> THEN <<I, T>> ELSE LET x == Type(I, r, T, Head(s)) IN TypeAll(x[1], r, x[2], Tail(s))
\* the box around a text: b is [x, y, x0, y0, x1, y1]
Bound1(I, T, b, c) ==
  IF T.font = 0 THEN
    IF c = 10 THEN [b EXCEPT !.x = 0, !.y = @ + T.size * 8] ELSE IF c = 13 THEN b
    ELSE LET q == IF I.wrap = 1 /\ b.x + T.size * 6 > I.w THEN [b EXCEPT !.x = 0, !.y = @ + T.size * 8] ELSE b IN
         [q EXCEPT !.x0 = MinI(@, q.x), !.y0 = MinI(@, q.y), !.x1 = MaxI(@, q.x + T.size * 6 - 1), !.y1 = MaxI(@, q.y + T.size * 8 - 1), !.x = @ + T.size * 6]
  ELSE IF c = 10 THEN [b EXCEPT !.x = 0, !.y = @ + T.size * T.fn.adv] ELSE IF ~Has(T.fn, c) THEN b
  ELSE LET g == Glyph(T.fn, c)
           q == IF g.w > 0 /\ I.wrap = 1 /\ b.x + T.size * (g.xo + g.w) > I.w THEN [b EXCEPT !.x = 0, !.y = @ + T.size * T.fn.adv] ELSE b
           l == q.x + g.xo * T.size  t == q.y + g.yo * T.size IN
       [q EXCEPT !.x0 = MaxI(0, MinI(@, l)), !.y0 = MaxI(0, MinI(@, t)), !.x1 = MaxI(@, l + g.w * T.size - 1), !.y1 = MaxI(@, t + g.h * T.size - 1), !.x = @ + g.adv * T.size]
RECURSIVE BoundAll(_, _, _, _)
BoundAll(I, T, b, s) == IF s = <<>> THEN b ELSE BoundAll(I, T, Bound1(I, T, b, Head(s)), Tail(s))
Box(I, T, x, y, s) == LET b == BoundAll(I, T, [x |-> x, y |-> y, x0 |-> I.w, y0 |-> I.h, x1 |-> 0, y1 |-> 0], s) IN
                      (IF b.x1 >= b.x0 THEN <<b.x0, b.x1 - b.x0 + 1>> ELSE <<x, 0>>) \o (IF b.y1 >= b.y0 THEN <<b.y0, b.y1 - b.y0 + 1>> ELSE <<y, 0>>)
\* ---- bytes
Plain(I) == I.fmt \in {2, 3, 4, 6, 7, 8, 9} \/ (I.fmt = 1 /\ I.h % 8 = 0)
PxBytes(f, c) == CASE f \in {4, 9} -> <<c>> [] f \in {3, 8} -> <<ByteOf(c, 1), ByteOf(c, 0)>>
                   [] f \in {2, 7} -> <<ByteOf(c, 2), ByteOf(c, 1), ByteOf(c, 0)>> [] OTHER -> <<ByteOf(c, 0), ByteOf(c, 1), ByteOf(c, 2), ByteOf(c, 3)>>
\* monochrome: column by column from the left, each from the bottom up in groups of eight rows, of which the topmost is the highest bit
MonoByte(I, k) == LET g == I.h \div 8  x == (k - 1) \div g  top == (g - 1 - ((k - 1) % g)) * 8 IN
                  SumSeq([j \in 1..8 |-> IF I.px[Idx(I, <<x, top + j - 1>>)] # 0 THEN 2 ^ (8 - j) ELSE 0])
PixelBytes(I) == IF I.fmt = 1 THEN [k \in 1..Bytes(I.w, I.h, 1) |-> MonoByte(I, k)] ELSE Flat([i \in 1..(I.w * I.h) |-> PxBytes(I.fmt, I.px[i])])
FromBytes(w, h, f, b) ==
  [i \in 1..(w * h) |->
     IF f = 5 THEN 0
     ELSE IF f = 1 THEN LET x == (i - 1) % w  y == (i - 1) \div w  g == h \div 8 IN
                   IF y < h - (h % 8) /\ BitAt(b[x * g + (g - 1 - y \div 8) + 1], 7 - (y % 8)) = 1 THEN -1 ELSE 0
     ELSE LET n == Bpp(f) \div 8  o == (i - 1) * n IN
          CASE n = 1 -> b[o + 1] [] n = 2 -> b[o + 1] * 256 + b[o + 2] [] n = 3 -> b[o + 1] * 65536 + b[o + 2] * 256 + b[o + 3]
            [] OTHER -> Word(b[o + 4], b[o + 3], b[o + 2], b[o + 1])]
Flags(I) == Bit(I.own = 1) + 16 * I.wrap + 32 * I.cp + 64 * I.fx + 128 * I.fy
Serial(I) == <<0, 0, I.w \div 256, I.w % 256, 0, 0, I.h \div 256, I.h % 256, I.fmt, Flags(I)>> \o PixelBytes(I)
\* an image from bytes: <<image, result>>; only into one without a format
Load(I, d) ==
  IF I.fmt # 0 \/ Len(d) < 10 THEN <<I, -1>>
  ELSE LET w == d[3] * 256 + d[4]  h == d[7] * 256 + d[8]  f == d[9]  g == d[10] IN
       IF d[1] # 0 \/ d[2] # 0 \/ d[5] # 0 \/ d[6] # 0 \/ Bpp(f) = 0 \/ (w > 1000 /\ h > 1000) \/ Bytes(w, h, f) # Len(d) - 10 THEN <<I, -1>>
       ELSE LET J == [w |-> w, h |-> h, fmt |-> f, own |-> 1, px |-> [i \in 1..(w * h) |-> 0], fx |-> BitAt(g, 6), fy |-> BitAt(g, 7), wrap |-> BitAt(g, 4), cp |-> BitAt(g, 5)] IN
            <<[J EXCEPT !.px = FromBytes(w, h, f, SubSeq(d, 11, Len(d)))], 0>>
\* ---- colours of one format as another
Channels(f, c) == CASE f = 6 -> <<ByteOf(c, 3), ByteOf(c, 2), ByteOf(c, 1), ByteOf(c, 0)>>
                    [] f = 7 -> <<ByteOf(c, 2), ByteOf(c, 1), ByteOf(c, 0), 0>>
                    [] f = 8 -> <<((c \div 2048) % 32) * 8, ((c \div 32) % 64) * 4, (c % 32) * 8, 0>>
                    [] f = 9 -> <<((c \div 32) % 8) * 32, ((c \div 4) % 8) * 32, (c % 4) * 64, 0>>
                    [] OTHER -> IF c = 0 THEN <<0, 0, 0, 0>> ELSE <<255, 255, 255, 255>>
Packed(f, k) == CASE f = 6 -> Word(k[1], k[2], k[3], k[4])
                  [] f = 7 -> k[1] * 65536 + k[2] * 256 + k[3]
                  [] f = 8 -> (k[1] \div 8) * 2048 + (k[2] \div 4) * 32 + k[3] \div 8
                  [] OTHER -> (k[1] \div 32) * 32 + (k[2] \div 32) * 4 + k[3] \div 64
AsFormat(f, c, g) == IF f = g THEN c ELSE IF g = 1 THEN (IF c = 0 THEN 0 ELSE -1) ELSE Packed(g, Channels(f, c))

Wide(I) == IF rot \in {1, 3} THEN I.h ELSE I.w
High(I) == IF rot \in {1, 3} THEN I.w ELSE I.h
Obs == <<<<im.w, im.h, im.fmt, im.own, Bytes(im.w, im.h, im.fmt), rot, im.fx, im.fy, im.wrap, im.cp, tx.x, tx.y>>>>
       \o [j \in 1..High(im) |-> [i \in 1..Wide(im) |-> Get(im, rot, <<i - 1, j - 1>>)]]
Zero(w, h) == [i \in 1..(w * h) |-> 0]
Same == UNCHANGED <<im, rot, tx, wire>>
Go(op, a, d, I, r) == im' = I /\ UNCHANGED <<rot, tx, wire>> /\ Res(op, a, d, r)
New(a) == /\ im' = [NoImage EXCEPT !.w = a[1], !.h = a[2], !.fmt = a[3], !.own = (IF a[4] = 0 THEN 1 ELSE 2), !.px = Zero(a[1], a[2])]
          /\ a[1] > 0 /\ a[2] > 0 /\ a[3] \in 1..9 /\ rot' = 0 /\ tx' = NoText /\ UNCHANGED wire /\ Res("new", a, <<>>, <<1>>)
SetSize(w, h) == LET a == <<w, h>> IN
  IF im.own = 2 THEN Go("size", a, <<>>, im, <<0>>)
  ELSE IF im.fmt = 0 THEN Go("size", a, <<>>, [im EXCEPT !.w = w, !.h = h], <<0>>)
  ELSE Go("size", a, <<>>, [im EXCEPT !.w = w, !.h = h, !.own = 1, !.px = Zero(w, h)], <<1>>)
Wipe == Go("wipe", <<>>, <<>>, NoImage, <<0>>)
Copy(f, d) ==
  IF Len(d) # Bytes(im.w, im.h, f) \/ (f # 0 /\ ~Plain([im EXCEPT !.fmt = f])) THEN Go("copy", <<f>>, d, im, <<-99>>)
  ELSE LET J == [im EXCEPT !.fmt = f, !.px = FromBytes(im.w, im.h, f, d)] IN
       IF f = 0 THEN Go("copy", <<f>>, d, im, <<0>>)
       ELSE IF im.own # 0 /\ Bpp(f) = Bpp(im.fmt) THEN Go("copy", <<f>>, d, J, <<1>>)
       ELSE IF im.own = 2 THEN Go("copy", <<f>>, d, im, <<0>>)
       ELSE Go("copy", <<f>>, d, [J EXCEPT !.own = 1], <<1>>)
Orient(r) == rot' = r /\ UNCHANGED <<im, tx, wire>> /\ Res("orient", <<r>>, <<>>, <<r>>)
SetPx(x, y, c) == LET p == Put(im, rot, <<x, y>>, c) IN Go("set", <<x, y, c>>, <<>>, p[1], <<p[2]>>)
Rgb(a) == LET k == <<a[3], a[4], a[5], 0>>  a2 == <<a[1], a[2]>> IN
          IF im.fmt = 1 THEN LET p == Put(im, rot, a2, a[3] + a[4] + a[5]) IN Go("rgb", a, <<>>, p[1], <<p[2]>>)
          ELSE IF im.fmt \in {7, 8, 9} THEN LET p == Put(im, rot, a2, Packed(im.fmt, k)) IN Go("rgb", a, <<>>, p[1], <<p[2]>>)
          ELSE IF im.fmt \in {0, 5, 6} THEN Go("rgb", a, <<>>, im, <<0>>) ELSE Go("rgb", a, <<>>, im, <<-99>>)
Fill(c) == Go("fill", <<c>>, <<>>, Cover(im, rot, LAMBDA p : TRUE, c), <<0>>)
Serialize == IF im.own = 0 \/ im.fmt = 0 THEN Go("ser", <<>>, <<>>, im, <<-1>>)
             ELSE IF ~Plain(im) THEN Go("ser", <<>>, <<>>, im, <<-99>>)
             ELSE wire' = Serial(im) /\ UNCHANGED <<im, rot, tx>> /\ Res("ser", <<>>, <<>>, <<0>> \o Serial(im))
LoadOp(op, d) == LET x == Load(im, d) IN Go(op, <<>>, IF op = "load" THEN <<>> ELSE d, x[1], <<x[2]>>)
AsFmt(x, y, f) == IF im.fmt \notin {1, 6, 7, 8, 9} \/ f \notin {1, 6, 7, 8, 9} THEN Go("as", <<x, y, f>>, <<>>, im, <<-99>>)
                  ELSE Go("as", <<x, y, f>>, <<>>, im, <<AsFormat(im.fmt, Get(im, rot, <<x, y>>), f)>>)
Draw(op, a) ==
  LET C(on(_), c) == Go(op, a, <<>>, Cover(im, rot, on, c), <<0>>) IN
  CASE op = "line" -> C(LAMBDA p : OnLine(p, a[1], a[2], a[3], a[4]), a[5])
    [] op = "hline" -> C(LAMBDA p : InRect(p, a[1], a[2], a[3], 1), a[4])
    [] op = "vline" -> C(LAMBDA p : InRect(p, a[1], a[2], 1, a[3]), a[4])
    [] op = "frect" -> C(LAMBDA p : InRect(p, a[1], a[2], a[3], a[4]), a[5])
    [] op = "rect" -> IF a[3] = 0 \/ a[4] = 0 THEN Go(op, a, <<>>, im, <<-99>>) ELSE C(LAMBDA p : OnEdge(p, a[1], a[2], a[3], a[4]), a[5])
    [] op = "circle" -> LET K == Circle(a[3]) IN C(LAMBDA p : OnCircle(K, p, a[1], a[2]), a[4])
    [] op = "fcircle" -> LET K == Circle(a[3]) IN C(LAMBDA p : InCircle(K, p, a[1], a[2]), a[4])
    [] op = "rrect" -> IF a[3] = 0 \/ a[4] = 0 THEN Go(op, a, <<>>, im, <<-99>>)
                       ELSE LET r == Radius(a[3], a[4], a[5])  K == Arc(0, r, r) IN C(LAMBDA p : OnRound(K, p, a[1], a[2], a[3], a[4], r), a[6])
    [] op = "frrect" -> IF a[3] = 0 \/ a[4] = 0 THEN Go(op, a, <<>>, im, <<-99>>)
                        ELSE LET r == Radius(a[3], a[4], a[5])  K == Circle(r) IN C(LAMBDA p : InRound(K, p, a[1], a[2], a[3], a[4], r), a[6])
    [] op = "tri" -> C(LAMBDA p : OnLine(p, a[1], a[2], a[3], a[4]) \/ OnLine(p, a[3], a[4], a[5], a[6]) \/ OnLine(p, a[5], a[6], a[1], a[2]), a[7])
    [] OTHER -> C(LAMBDA p : InTriangle(p, <<a[1], a[2]>>, <<a[3], a[4]>>, <<a[5], a[6]>>), a[7])
Bitmap(a, d) == IF Len(d) # a[3] * a[4] THEN Go("bitmap", a, d, im, <<-99>>)
                ELSE Go("bitmap", a, d, Paint(im, rot, LAMBDA p : IF InRect(p, a[1], a[2], a[3], a[4]) THEN <<d[(p[2] - a[2]) * a[3] + p[1] - a[1] + 1]>> ELSE <<>>), <<0>>)
Char(a) == Go("char", a, <<>>, IF tx.font = 0 THEN CharClassic(im, rot, a[1], a[2], a[3], a[4], a[5], a[6])
                               ELSE IF ~Has(tx.fn, a[3]) THEN im ELSE CharCustom(im, rot, Glyph(tx.fn, a[3]), a[1], a[2], a[4], a[6]),
                   <<IF tx.font = 1 /\ ~Has(tx.fn, a[3]) THEN -99 ELSE 0>>)
TextSet(a) == /\ tx' = [x |-> a[1], y |-> a[2], size |-> MaxI(1, a[3]), fg |-> a[4], bg |-> a[5], font |-> a[6], fn |-> tx.fn]
              /\ im' = [im EXCEPT !.wrap = a[7], !.cp = a[8]] /\ UNCHANGED <<rot, wire>>
              /\ Res("text", a, <<>>, IF a[6] = 0 THEN <<6 * MaxI(1, a[3]), 8 * MaxI(1, a[3])>> ELSE <<tx.fn.gl[1].adv * MaxI(1, a[3]), tx.fn.adv * MaxI(1, a[3])>>)
\* another font: its first character, its height, and for each glyph its width, height, advance and offsets, followed by its bits
RECURSIVE Cut(_)
Cut(d) == IF d = <<>> THEN <<>>
          ELSE <<[w |-> d[1], h |-> d[2], adv |-> d[3], xo |-> d[4], yo |-> d[5], bits |-> SubSeq(d, 6, 5 + d[1] * d[2])]>> \o Cut(SubSeq(d, 6 + d[1] * d[2], Len(d)))
FontSet(a, d) == /\ d # <<>> /\ tx' = [tx EXCEPT !.fn = [first |-> a[1], adv |-> a[2], gl |-> Cut(d)]]
                 /\ UNCHANGED <<im, rot, wire>> /\ Res("font", a, d, <<Len(Cut(d))>>)
Write(d) == IF HasElem(d, 0) THEN Go("write", <<>>, d, im, <<-99>>)
            ELSE LET x == TypeAll(im, rot, tx, d) IN im' = x[1] /\ tx' = x[2] /\ UNCHANGED <<rot, wire>> /\ Res("write", <<>>, d, <<0>>)
Measure(x, y, d) == IF HasElem(d, 0) THEN Go("box", <<x, y>>, d, im, <<-99>>) ELSE Go("box", <<x, y>>, d, im, Box(im, tx, x, y, d))
Shapes == {"line", "hline", "vline", "frect", "rect", "circle", "fcircle", "rrect", "frrect", "tri", "ftri"}
Do(op, a, dd) == LET d == IF dd = <<>> THEN <<>> ELSE dd[1] IN
  CASE op = "new" -> New(a) [] op = "size" -> SetSize(a[1], a[2]) [] op = "wipe" -> Wipe [] op = "copy" -> Copy(a[1], d)
    [] op = "orient" -> Orient(a[1])
    [] op = "flip" -> Go("flip", a, <<>>, [im EXCEPT !.fx = a[1], !.fy = a[2]], <<0>>)
    [] op = "set" -> SetPx(a[1], a[2], a[3]) [] op = "rgb" -> Rgb(a) [] op = "get" -> Go("get", a, <<>>, im, <<Get(im, rot, <<a[1], a[2]>>)>>)
    [] op = "as" -> AsFmt(a[1], a[2], a[3]) [] op = "fill" -> Fill(a[1])
    [] op = "ser" -> Serialize [] op = "load" -> LoadOp("load", wire) [] op = "loadd" -> LoadOp("loadd", d)
    [] op \in Shapes -> Draw(op, a) [] op = "bitmap" -> Bitmap(a, d)
    [] op = "char" -> Char(a) [] op = "text" -> TextSet(a) [] op = "font" -> FontSet(a, d) [] op = "write" -> Write(d) [] op = "box" -> Measure(a[1], a[2], d) [] OTHER -> FALSE
Init == im = NoImage /\ rot = 0 /\ tx = NoText /\ wire = <<>> /\ last = [op |-> "init", a |-> <<>>, d |-> <<>>, r |-> <<>>]
===========================================================================
