-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The prime field and the group of secp256k1 (SEC 2), and the relation    *)
(* between group elements and homogeneous projective triples.              *)
(* A group element is <<>> (the identity) or <<x, y>> with y^2 = x^3 + 7.  *)
(***************************************************************************)
EXTENDS BigNat

FieldP == HexNat("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
OrderN == HexNat("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
CurveB == <<7>>
BaseG  == <<HexNat("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            HexNat("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")>>
HalfN  == BDiv(OrderN, <<2>>)

FAdd(a, b) == BAddMod(a, b, FieldP)
FSub(a, b) == BSubMod(a, b, FieldP)
FMul(a, b) == BMulMod(a, b, FieldP)
FSqr(a)    == BMulMod(a, a, FieldP)
FInv(a)    == BInv(a, FieldP)
IsField(a) == BLt(a, FieldP)

\* Whether the affine coordinates (x, y) satisfy the curve equation.
AffineOnCurve(x, y) == FSqr(y) = FAdd(FMul(FSqr(x), x), CurveB)

Identity == <<>>
GNeg(P) == IF P = Identity THEN P ELSE <<P[1], BSubMod(<<>>, P[2], FieldP)>>
GSlope(P, lam, qx) ==
    LET x3 == FSub(FSub(FSqr(lam), P[1]), qx)
    IN <<x3, FSub(FMul(lam, FSub(P[1], x3)), P[2])>>
GDouble(P) ==
    IF P = Identity \/ P[2] = <<>> THEN Identity
    ELSE GSlope(P, FMul(FMul(<<3>>, FSqr(P[1])), FInv(FMul(<<2>>, P[2]))), P[1])
GAdd(P, Q) ==
    IF P = Identity THEN Q
    ELSE IF Q = Identity THEN P
    ELSE IF P[1] = Q[1] THEN (IF P[2] = Q[2] THEN GDouble(P) ELSE Identity)
    ELSE GSlope(P, FMul(FSub(Q[2], P[2]), FInv(FSub(Q[1], P[1]))), Q[1])

\* k * P for a natural number k below 2^256, by the binary method from the top bit.
GMul(k, P) ==
    FoldLeft(LAMBDA acc, i : LET d == GDouble(acc)
                             IN IF BBit(k, 256 - i) = 1 THEN GAdd(d, P) ELSE d,
             Identity, [i \in 1..256 |-> i])

----------------------------------------------------------------------------
(* Projective triples <<X, Y, Z>>: (X/Z, Y/Z) if Z # 0; (0 : Y : 0) with Y # 0 is the identity. *)
IsTriple(t) == IsField(t[1]) /\ IsField(t[2]) /\ IsField(t[3])
IsZeroTriple(t) == t[1] = <<>> /\ t[2] # <<>> /\ t[3] = <<>>
\* The triple stands for a group element.
IsPoint(t) ==
    /\ IsTriple(t)
    /\ \/ IsZeroTriple(t)
       \/ /\ t[3] # <<>>     \* Y^2 Z = X^3 + 7 Z^3
          /\ FMul(FSqr(t[2]), t[3]) = FAdd(FMul(FSqr(t[1]), t[1]), FMul(CurveB, FMul(FSqr(t[3]), t[3])))
ToGroup(t) == IF t[3] = <<>> THEN Identity
              ELSE LET zi == FInv(t[3]) IN <<FMul(t[1], zi), FMul(t[2], zi)>>
\* Triple t is one of the representations of group element P.
Represents(t, P) ==
    /\ IsTriple(t)
    /\ IF P = Identity THEN IsZeroTriple(t)
       ELSE /\ t[3] # <<>>
            /\ t[1] = FMul(P[1], t[3])
            /\ t[2] = FMul(P[2], t[3])
NormalTriple(P) == IF P = Identity THEN <<<<>>, BOne, <<>>>> ELSE <<P[1], P[2], BOne>>
IsNormal(t) == t[3] = BOne \/ t = NormalTriple(Identity)
\* SEC 1 compressed encoding of a normalized triple.
Compressed(t) == <<(IF t[2] # <<>> /\ t[2][1] % 2 = 1 THEN 3 ELSE 2)>> \o ToBE(t[1], 32)
=============================================================================
