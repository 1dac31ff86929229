------------------------------ MODULE EcdsaSpec ------------------------------
(***************************************************************************)
(* ECDSA over secp256k1 (SEC 1), as the library promises it.               *)
(***************************************************************************)
EXTENDS Curve, Hashes

InScalarRange(k) == k # <<>> /\ BLt(k, OrderN)

SigR(nonce) == BMod(GMul(nonce, BaseG)[1], OrderN)
\* Before the low-S rule.
SigS0(priv, z, nonce, r) ==
    BMulMod(BInv(nonce, OrderN), BAddMod(z, BMulMod(r, priv, OrderN), OrderN), OrderN)
LowS(s) == IF BLt(HalfN, s) THEN BSub(OrderN, s) ELSE s

\* [ok, r, s]; z is the integer that the message hash's bytes denote in big endian. Requires priv in range.
Sign(priv, z, nonce) ==
    IF ~InScalarRange(nonce) THEN [ok |-> FALSE, r |-> <<>>, s |-> <<>>]
    ELSE LET r == SigR(nonce)
             s == SigS0(priv, z, nonce, r)
         IN IF r = <<>> \/ s = <<>> THEN [ok |-> FALSE, r |-> <<>>, s |-> <<>>]
            ELSE [ok |-> TRUE, r |-> r, s |-> LowS(s)]

HmacNonce(priv, hash) == FromBE(HmacSha256(ToBE(priv, 32), hash))

\* q is a projective triple.
Verify(q, z, r, s) ==
    /\ InScalarRange(r) /\ InScalarRange(s)
    /\ q[3] = BOne /\ AffineOnCurve(q[1], q[2])
    /\ LET w == BInv(s, OrderN)
           P == GAdd(GMul(BMulMod(z, w, OrderN), BaseG), GMul(BMulMod(r, w, OrderN), <<q[1], q[2]>>))
       IN P # Identity /\ BMod(P[1], OrderN) = r
=============================================================================
