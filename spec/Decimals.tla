---- MODULE Decimals ----
(***************************************************************************)
(* Decimal numbers with fifteen decimals, within TLC's 32-bit integers:    *)
(* [neg, i, d] where i is the whole part and d three groups of five        *)
(* digits.  What lies beyond the fifteenth decimal has been cut off.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 100000
Signed(x) == LET s == IF x.neg THEN -1 ELSE 1 IN <<s * x.i, s * x.d[1], s * x.d[2], s * x.d[3]>>
(* the difference in units of the fifteenth decimal, if it is small: the
   groups are combined from the left, giving up when they are too big *)
Small(w) ==
    IF w[1] > 2 \/ w[1] < -2 THEN 2000000000
    ELSE LET a == w[1] * B + w[2] IN
         IF a > 10000 \/ a < -10000 THEN 2000000000 * (IF a < 0 THEN -1 ELSE 1)
         ELSE LET b == a * B + w[3] IN
              IF b > 10000 \/ b < -10000 THEN 2000000000 * (IF b < 0 THEN -1 ELSE 1)
              ELSE b * B + w[4]
Abs(n) == IF n < 0 THEN -n ELSE n
Diff(x, y) == LET p == Signed(x) q == Signed(y) IN <<p[1]-q[1], p[2]-q[2], p[3]-q[3], p[4]-q[4]>>
(* x and y differ by at most n units of the fifteenth decimal (n < 10^9) *)
Within(x, y, n) == Abs(Small(Diff(x, y))) <= n
(* half a unit of the tenth and sixth decimals, and a little for what was cut off *)
Ten == 50002
SixthHalf == 500000002

Less(x, y) == LET w == Diff(x, y) IN
    \/ w[1] < -1
    \/ (w[1] <= 1 /\ LET a == w[1]*B + w[2] IN
          \/ a < -1
          \/ (a <= 1 /\ LET b == a*B + w[3] IN
                \/ b < -1
                \/ (b <= 1 /\ b*B + w[4] < 0)))
====
