------------------------------- MODULE MC_Group -------------------------------
(***************************************************************************)
(* The definitions of Curve on a small curve y^2 = x^3 + 7 of prime order  *)
(* (the .cfg substitutes the constants of secp256k1): the group laws, what *)
(* triples denote, and that the library's algorithms (Algorithms) compute  *)
(* the group operations for every representation of every pair of points.  *)
(* Supports C06, C07, C08.                                                 *)
(***************************************************************************)
EXTENDS Algorithms, FiniteSets

CONSTANTS ToyPrime, ToyOrder, ToyX, ToyY, ScalarBits, MaxScale

ToyP == BFromInt(ToyPrime)
ToyN == BFromInt(ToyOrder)
ToyG == <<BFromInt(ToyX), BFromInt(ToyY)>>
RECURSIVE SmallMul(_, _)
SmallMul(k, Q) == IF k = <<>> THEN Identity ELSE GAdd(SmallMul(BSub(k, BOne), Q), Q)

Field == {BFromInt(i) : i \in 0..(ToyPrime - 1)}
Affine == {q \in Field \X Field : AffineOnCurve(q[1], q[2])}
Group == {Identity} \cup Affine
Units == Field \ {<<>>}
Scales == {BFromInt(i) : i \in 1..MaxScale} \cup {BSub(ToyP, BOne)}
Scale(P, z) == IF P = Identity THEN <<<<>>, z, <<>>>> ELSE <<FMul(P[1], z), FMul(P[2], z), z>>

VARIABLES kind, a, b, x
vars == <<kind, a, b, x>>

Init ==
    /\ kind \in {"laws", "triple", "alg", "mul"}
    /\ a \in (IF kind = "triple" THEN {Identity} ELSE Group)
    /\ b = Identity /\ x = <<>>
Next ==
    /\ x = <<>>
    /\ UNCHANGED <<kind, a>>
    /\ \/ kind = "laws" /\ b' \in Group /\ \E g \in Group : x' = <<g>>
       \/ kind = "triple" /\ UNCHANGED b /\ \E X \in Field, Y \in Field, Z \in Field : x' = <<X, Y, Z>>
       \/ kind = "alg" /\ b' \in Group /\ \E z1 \in Units, z2 \in Scales : x' = <<z1, z2>>
       \/ kind = "mul" /\ UNCHANGED b /\ \E z \in {BOne, BSub(ToyP, BOne), <<3>>}, n \in 0..(2^ScalarBits - 1) : x' = <<z, n>>
Spec == Init /\ [][Next]_vars

Laws == kind = "laws" /\ x # <<>> =>
    LET c == x[1]
    IN /\ GAdd(a, b) \in Group
       /\ GAdd(GAdd(a, b), c) = GAdd(a, GAdd(b, c))
       /\ GAdd(a, b) = GAdd(b, a)
       /\ GAdd(a, Identity) = a
       /\ GAdd(a, GNeg(a)) = Identity
       /\ GDouble(a) = GAdd(a, a)
Order == x = <<>> /\ kind = "laws" =>
    /\ Cardinality(Group) = ToyOrder
    /\ SmallMul(ToyN, a) = Identity
    /\ a # Identity => \A k \in 1..(ToyOrder - 1) : SmallMul(BFromInt(k), a) # Identity
    /\ \A k \in 0..(2 * ToyOrder) : GMul(BFromInt(k), a) = SmallMul(BMod(BFromInt(k), ToyN), a)
\* A triple is a point if and only if it represents exactly one group element, which ToGroup finds.
Triples == kind = "triple" /\ x # <<>> =>
    /\ \A g \in Group : Represents(x, g) = (IsPoint(x) /\ ToGroup(x) = g)
    /\ IsPoint(x) = (\E g \in Group : Represents(x, g))
    /\ IsPoint(x) => AlgNormalize(x) = NormalTriple(ToGroup(x)) /\ IsNormal(AlgNormalize(x))
Refines == kind = "alg" /\ x # <<>> =>
    LET s == Scale(a, x[1])
        t == Scale(b, x[2])
    IN /\ Represents(s, a) /\ Represents(t, b)
       /\ Represents(AlgAdd(s, t), GAdd(a, b))
       /\ Represents(AlgTwice(s), GDouble(a))
Multiplies == kind = "mul" /\ x # <<>> =>
    \A width \in {1, 2, 4} : Represents(AlgMultiply(x[2], Scale(a, x[1]), ScalarBits, width), GMul(BFromInt(x[2]), a))
=============================================================================
