-------------------------------- MODULE Dual --------------------------------
(* Values with a directional derivative, <<x, x'>>: derivatives are never written down by hand *)
EXTENDS Rational, TLC
DRnd(a) == <<RDown(a[1], 260), RDown(a[2], 260)>>
DC(c)      == <<c, "0">>
DX(c)      == <<c, "1">>
DAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
DSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
DMul(a, b) == <<RMul(a[1], b[1]), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
DDiv(a, b) == LET q == RDiv(a[1], b[1]) IN <<q, RDiv(RSub(a[2], RMul(q, b[2])), b[1])>>
DNeg(a)    == <<RNeg(a[1]), RNeg(a[2])>>
DScale(c, a) == <<RMul(c, a[1]), RMul(c, a[2])>>
DExp(a)    == LET x == RExpDown(a[1]) IN <<x, RMul(x, a[2])>>           \* 80 bits
DPower(a, x) == LET y == RPowerDown(a[1], x) IN <<y, RDiv(RMul(RMul(x, y), a[2]), a[1])>>
RECURSIVE DDot(_, _), DSum(_)
DDot(s, t) == IF s = <<>> THEN DC("0") ELSE DAdd(DMul(Head(s), Head(t)), DDot(Tail(s), Tail(t)))
DSum(s)    == IF s = <<>> THEN DC("0") ELSE DAdd(Head(s), DSum(Tail(s)))
RECURSIVE Taylor(_, _, _, _)        \* sum from k of (-1)^j x^k/k!, t: the term k
Taylor(x2, t, k, n) == IF n = 0 THEN t
  ELSE RAdd(t, Taylor(x2, RDown(RNeg(RDiv(RMul(t, x2), R((k + 1) * (k + 2)))), 260), k + 2, n - 1))
Sin(x) == Taylor(RMul(x, x), x, 1, 30)           \* |x| <= 10
Cos(x) == Taylor(RMul(x, x), "1", 0, 30)
DSin(a) == <<Sin(a[1]), RMul(Cos(a[1]), a[2])>>
DCos(a) == <<Cos(a[1]), RNeg(RMul(Sin(a[1]), a[2]))>>
(* the point U moved in direction e_k / in direction d *)
DPoint(U)    == [j \in 1..Len(U) |-> DC(U[j])]
DUnit(U, k)  == [j \in 1..Len(U) |-> <<U[j], IF j = k THEN "1" ELSE "0">>]
DAlong(U, d) == [j \in 1..Len(U) |-> <<U[j], d[j]>>]
Value(s) == [j \in 1..Len(s) |-> s[j][1]]
Slope(s) == [j \in 1..Len(s) |-> s[j][2]]
=============================================================================
