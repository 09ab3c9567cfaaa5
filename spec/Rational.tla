---------------------------- MODULE Rational ----------------------------
(* Exact rational arithmetic.  A rational is a string ("3", "-7/4", "1.25", "1e-3", or "5b-3" for
   5 * 2^-3; a double is such a number).  Val is the (bijective up to notation) meaning; results are
   in canonical form "p/q", so canonical rationals can be compared with "=".

   The definitions give the meaning; TLC evaluates them with java/Rational.java. *)
EXTENDS Integers, Reals, Sequences

RVal(s) == CHOOSE r \in Real : TRUE         \* the number denoted by s
LOCAL Is(x) == CHOOSE s \in STRING : RVal(s) = x

R(a)         == Is(IF a \in Int THEN a ELSE RVal(a))
RAdd(a, b)   == Is(RVal(a) + RVal(b))
RSub(a, b)   == Is(RVal(a) - RVal(b))
RMul(a, b)   == Is(RVal(a) * RVal(b))
RDiv(a, b)   == Is(RVal(a) / RVal(b))
RNeg(a)      == RSub("0", a)
RLe(a, b)    == RVal(a) <= RVal(b)
RLt(a, b)    == RVal(a) < RVal(b)
REq(a, b)    == RVal(a) = RVal(b)
RAbs(a)      == IF RLe("0", a) THEN a ELSE RNeg(a)
RMin(a, b)   == IF RLe(a, b) THEN a ELSE b
RMax(a, b)   == IF RLe(a, b) THEN b ELSE a
RECURSIVE RSum(_), RSumAbs(_), RDot(_, _), RMaxSeq(_), RMinSeq(_), RPow(_, _)
RSum(s)      == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSum(Tail(s)))
RSumAbs(s)   == IF s = <<>> THEN "0" ELSE RAdd(RAbs(Head(s)), RSumAbs(Tail(s)))
RDot(s, t)   == IF s = <<>> THEN "0" ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))
RMaxSeq(s)   == IF Len(s) = 1 THEN s[1] ELSE RMax(Head(s), RMaxSeq(Tail(s)))
RMinSeq(s)   == IF Len(s) = 1 THEN s[1] ELSE RMin(Head(s), RMinSeq(Tail(s)))
RPow(a, k)   == IF k = 0 THEN "1" ELSE IF k > 0 THEN RMul(a, RPow(a, k - 1)) ELSE RDiv("1", RPow(a, -k))
(* directed rounding to k significant bits; n-th root and exponential with k = 80 or more bits *)
RDown(a, k)  == CHOOSE s \in STRING : RVal(s) <= RVal(a)
RUp(a, k)    == CHOOSE s \in STRING : RVal(s) >= RVal(a)
RRootDown(a, n, k) == CHOOSE s \in STRING : RLe("0", s) /\ RLe(RPow(s, n), a)
RRootUp(a, n, k)   == CHOOSE s \in STRING : RLe("0", s) /\ RLe(a, RPow(s, n))
RExpDown(a)  == CHOOSE s \in STRING : TRUE      \* lower / upper bound of the exponential
RExpUp(a)    == CHOOSE s \in STRING : TRUE
(* lower / upper bound of the real power a^x, a > 0, with at least 80 bits; e.g. of RRoot(a^p, q) if x = p/q *)
RPowerDown(a, x) == CHOOSE s \in STRING : TRUE
RPowerUp(a, x)   == CHOOSE s \in STRING : TRUE
RFloor(a)    == CHOOSE n \in Int : n <= RVal(a) /\ RVal(a) < n + 1
RShow(a)     == a                          \* decimal notation, for messages
=========================================================================
