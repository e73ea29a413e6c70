-------------------------------- MODULE Wide ---------------------------------
(***************************************************************************)
(* Natural numbers of any size, as sequences of digits to base 10000,      *)
(* lowest first (TLC's own integers have 32 bits).  Leading zeros are      *)
(* allowed; <<>> is zero.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Base == 10000
LOCAL Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE WCarry(_, _, _, _)
WCarry(a, i, c, out) ==       \* digits of any size below 2^31 to proper ones
    IF i > Len(a) THEN IF c = 0 THEN out ELSE WCarry(a, i, c \div Base, Append(out, c % Base))
    ELSE LET x == a[i] + c IN WCarry(a, i + 1, x \div Base, Append(out, x % Base))
WOf(n) == WCarry(<<>>, 1, n, <<>>)            \* of a natural number

WAdd(a, b) == WCarry([i \in 1..Longer(a, b) |-> Digit(a, i) + Digit(b, i)], 1, 0, <<>>)

RECURSIVE WCmpAt(_, _, _)
WCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF Digit(a, i) # Digit(b, i)
                        THEN IF Digit(a, i) < Digit(b, i) THEN -1 ELSE 1
                        ELSE WCmpAt(a, b, i - 1)
WCmp(a, b) == WCmpAt(a, b, Longer(a, b))      \* -1, 0, 1
WLeq(a, b) == WCmp(a, b) <= 0
WLess(a, b) == WCmp(a, b) < 0
WEq(a, b) == WCmp(a, b) = 0

RECURSIVE WBorrow(_, _, _, _, _)
WBorrow(a, b, i, c, out) ==
    IF i > Len(a) THEN out
    ELSE LET x == a[i] - Digit(b, i) - c
         IN WBorrow(a, b, i + 1, IF x < 0 THEN 1 ELSE 0,
                    Append(out, IF x < 0 THEN x + Base ELSE x))
WSub(a, b) == WBorrow(a \o [i \in 1..(Longer(a, b) - Len(a)) |-> 0], b, 1, 0, <<>>)  \* for b <= a
WDist(a, b) == IF WLeq(a, b) THEN WSub(b, a) ELSE WSub(a, b)

RECURSIVE WCoef(_, _, _, _, _)
WCoef(a, b, k, i, acc) == IF i > Len(a) \/ i > k THEN acc
                          ELSE WCoef(a, b, k, i + 1, acc + a[i] * Digit(b, k - i + 1))
WMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
              ELSE WCarry([k \in 1..(Len(a) + Len(b) - 1) |-> WCoef(a, b, k, 1, 0)], 1, 0, <<>>)
WTimes(n, a) == WMul(WOf(n), a)
WSquare(a) == WMul(a, a)
\* |a - b| <= tol
WNear(a, b, tol) == WLeq(WDist(a, b), tol)
==============================================================================
