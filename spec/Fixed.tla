---- MODULE Fixed ----
(***************************************************************************)
(* Fixed-point arithmetic with six decimals, within TLC's 32-bit integers. *)
(* <<hi, lo>> stands for hi + lo/10^6, where 0 <= lo < 10^6 and hi may be  *)
(* negative.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

M == 1000000
Zero == <<0, 0>>
Int6(n) == <<n, 0>>

Norm(hi, lo) == <<hi + (lo \div M), lo % M>>      \* \div and % floor
Add6(x, y) == Norm(x[1] + y[1], x[2] + y[2])
Neg6(x) == Norm(-x[1], -x[2])
Sub6(x, y) == Add6(x, Neg6(y))
Lt6(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Le6(x, y) == ~Lt6(y, x)
Abs6(x) == IF Lt6(x, Zero) THEN Neg6(x) ELSE x
Close6(x, y, tol) == Le6(Abs6(Sub6(x, y)), Norm(0, tol))

Mul6(x, k) == Norm(x[1] * k, x[2] * k)            \* |k| <= 2000
Div1000(x) == <<x[1] \div 1000, ((x[1] % 1000) * M + x[2]) \div 1000>>
(* times a rate given in thousandths; rounds down to a millionth *)
MulMilli(x, m) ==
    LET a == m \div 1000
        b == m % 1000
    IN Add6(Mul6(x, a),
            Add6(Div1000(Mul6(<<x[1] % 1000, x[2]>>, b)), Int6((x[1] \div 1000) * b)))

Trunc6(x) == IF Lt6(x, Zero) THEN -(Neg6(x)[1]) ELSE x[1]
====
