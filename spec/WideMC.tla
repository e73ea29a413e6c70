------------------------------- MODULE WideMC --------------------------------
(* Laws of the arithmetic, on numbers around the digit boundaries. *)
EXTENDS Wide, TLC
Nums == {0, 1, 2, 9999, 10000, 10001, 19999, 20000, 123456, 99999999, 100000000, 2147483}
VARIABLES a, b, c
Init == a \in Nums /\ b \in Nums /\ c \in Nums
Next == FALSE /\ UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
RECURSIVE Val(_)
Val(w) == IF w = <<>> THEN 0 ELSE w[1] + 10000 * Val(Tail(w))
Laws == LET A == WOf(a)  B == WOf(b)  C == WOf(c) IN
    /\ Val(A) = a
    /\ WCmp(A, B) = IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
    /\ Val(WAdd(A, B)) = a + b
    /\ a >= b => Val(WSub(A, B)) = a - b
    /\ WEq(WMul(A, B), WMul(B, A))
    /\ WEq(WMul(A, WAdd(B, C)), WAdd(WMul(A, B), WMul(A, C)))
    /\ WEq(WMul(A, WMul(B, C)), WMul(WMul(A, B), C))
    /\ (a < 40000 /\ b < 40000) => Val(WMul(A, B)) = a * b
    /\ WEq(WDist(WMul(A, B), WMul(A, C)), WMul(A, WDist(B, C)))
==============================================================================
