------------------------------- MODULE MC_Ecdsa -------------------------------
(***************************************************************************)
(* ECDSA as EcdsaSpec defines it, on small curves y^2 = x^3 + 7 of prime   *)
(* order N (the .cfg substitutes the constants): a signer with any key     *)
(* signs any message with any nonce, a forger presents any public key,     *)
(* message and pair of numbers.  Supports C09, C10, C11.                   *)
(***************************************************************************)
EXTENDS EcdsaSpec

CONSTANTS ToyPrime, ToyOrder, ToyX, ToyY, Keys, Messages

ToyP == BFromInt(ToyPrime)
ToyN == BFromInt(ToyOrder)
ToyG == <<BFromInt(ToyX), BFromInt(ToyY)>>
Small(n) == IF n = <<>> THEN 0 ELSE n[1]
Multiples == FoldLeft(LAMBDA acc, k : Append(acc, GAdd(acc[k], ToyG)), <<Identity>>, [k \in 1..ToyOrder |-> k])
ASSUME Multiples[ToyOrder + 1] = Identity /\ \A k \in 2..ToyOrder : Multiples[k] # Identity
Log == [q \in {Multiples[k] : k \in 1..ToyOrder} |-> (CHOOSE k \in 1..ToyOrder : Multiples[k] = q) - 1]
\* What GMul is, by table (MC_Group checks GMul's definition).
ToyMul(k, Q) == Multiples[((Small(BMod(k, ToyN)) * Log[Q]) % ToyOrder) + 1]

Scalars == {BFromInt(i) : i \in 0..(ToyOrder + 1)}
Coords == {BFromInt(i) : i \in 0..(ToyPrime - 1)}
Pub(d) == NormalTriple(GMul(d, BaseG))

VARIABLES d, z, act
vars == <<d, z, act>>
Init == /\ d \in {BFromInt(i) : i \in Keys} /\ z \in {BFromInt(i) : i \in Messages} /\ act = <<"none">>
Next == /\ act = <<"none">> /\ UNCHANGED <<d, z>>
        /\ \/ \E k \in Scalars : act' = <<"sign", k>>
           \/ \E r \in Scalars, s \in Scalars : act' = <<"present", r, s>>
           \/ \E x \in Coords, y \in Coords, w \in {<<>>, BOne, <<2>>} : act' = <<"key", <<x, y, w>>>>
Spec == Init /\ [][Next]_vars

Nonces == {BFromInt(i) : i \in 1..(ToyOrder - 1)}
\* Signing succeeds exactly for usable nonces; what it returns verifies, as does the other s; the smaller is returned.
Signs == act[1] = "sign" =>
    LET k == act[2]
        sig == Sign(d, z, k)
        other == BSub(ToyN, sig.s)
    IN /\ sig.ok = (k \in Nonces /\ SigR(k) # <<>> /\ SigS0(d, z, k, SigR(k)) # <<>>)
       /\ sig.ok => /\ InScalarRange(sig.r) /\ InScalarRange(sig.s)
                    /\ Verify(Pub(d), z, sig.r, sig.s) /\ Verify(Pub(d), z, sig.r, other)
                    /\ BLt(sig.s, other)
                    /\ Sign(d, BMod(z, ToyN), k) = sig
                    /\ Sign(d, BAdd(z, ToyN), k) = sig
                    \* both nonces of one R give one signature
                    /\ Sign(d, z, BSub(ToyN, k)).r = sig.r
\* Exactly the signatures that the holder of the key could have made verify.
Sound == act[1] = "present" =>
    Verify(Pub(d), z, act[2], act[3]) =
        (/\ InScalarRange(act[2]) /\ InScalarRange(act[3])
         /\ \E k \in Nonces : SigR(k) = act[2] /\ SigS0(d, z, k, SigR(k)) = act[3])
\* No signature verifies under something that is not a normalized public key.
KeyChecked == act[1] = "key" =>
    LET q == act[2]
    IN (q[3] # BOne \/ ~AffineOnCurve(q[1], q[2])) => \A k \in {<<1>>, <<2>>, <<5>>} : LET sig == Sign(d, z, k) IN ~Verify(q, z, sig.r, sig.s)
=============================================================================
