----------------------------- MODULE MC_Reciprocal -----------------------------
(***************************************************************************)
(* The binary reciprocal with 2*Bits steps, for every odd modulus below    *)
(* 2^Bits and every argument: it ends, its intermediate numbers stay below *)
(* 2^Bits (no carry is lost), and it gives the reciprocal.  Also the       *)
(* largest number of steps that any argument needs.  Supports C03.         *)
(***************************************************************************)
EXTENDS Algorithms

CONSTANT Bits

VARIABLES m, v, st, n
vars == <<m, v, st, n>>

RECURSIVE Gcd(_, _)
Gcd(i, j) == IF j = 0 THEN i ELSE Gcd(j, i % j)

Init == /\ m \in {i \in 3..(2^Bits - 1) : i % 2 = 1}
        /\ v = -1 /\ n = 0 /\ st = [x |-> 0, y |-> 0, a |-> 0, b |-> 0]
Next ==
    \/ v = -1 /\ v' \in {i \in 0..(m - 1) : i = 0 \/ Gcd(m, i) = 1} /\ st' = RecStart(v', m) /\ UNCHANGED <<m, n>>
    \/ v >= 0 /\ n < 2 * Bits /\ st' = RecStep(st, m) /\ n' = n + 1 /\ UNCHANGED <<m, v>>
Spec == Init /\ [][Next]_vars

\* Loop invariant
Holds == v >= 0 =>
    /\ st.x % 2 = 1 /\ 0 <= st.y /\ st.x <= m /\ st.y <= m
    /\ 0 <= st.a /\ st.a < m /\ 0 <= st.b /\ st.b < m
    /\ (st.a * v) % m = st.x % m /\ (st.b * v) % m = st.y % m
    \* every two steps at least halve the product of the numbers
    /\ n >= 1 => st.x * st.y <= (m * m) \div 2^(n \div 2)
\* The sum in b / 2 + (m + 1) / 2 fits in Bits bits for every odd b < m.
NoOverflow == v = -1 => \A bb \in 0..(m - 1) : bb % 2 = 1 => bb \div 2 + (m \div 2 + 1) < 2^Bits
Result ==
    /\ v > 0 /\ n = 2 * Bits => st.x = 1 /\ (st.a * v) % m = 1
    /\ v = 0 /\ n = 2 * Bits => st.x = m /\ st.a = 0
Enough == v > 0 /\ n = 2 * Bits - 1 => st.x = 1
=============================================================================
