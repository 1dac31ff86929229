------------------------------ MODULE GenCalls ------------------------------
(***************************************************************************)
(* All sequences of calls of length Depth on two registers that start with *)
(* remarkable values: behaviours of BitcoinCrypto itself, which the        *)
(* harness replays into the library.  Every combination of destination and *)
(* operands occurs, in every order.  Laws are invariants of the machine on *)
(* these behaviours.                                                       *)
(***************************************************************************)
EXTENDS BitcoinCrypto, Json

CONSTANTS Profile, Depth

VARIABLE hist
gvars == <<u, f, p, h, d, out, w, leak, hist>>

R2 == {1, 2}
Max256 == BSub(Two256, BOne)
Mid == BAdd(BPow2(128), BPow2(95))
UVals == {BZero, BOne, Max256, BSub(Two256, BPow2(64)), Mid}
FVals == {BZero, BOne, BSub(FieldP, BOne), BDiv(BAdd(FieldP, BOne), <<2>>)}
G2 == GDouble(BaseG)
PVals == {NormalTriple(Identity), NormalTriple(BaseG), NormalTriple(GNeg(BaseG)),
          <<FMul(G2[1], <<5>>), FMul(G2[2], <<5>>), <<5>>>>}

\* An object given for both operands of a call that does not mind: only in the first call, to save time.
First == Len(hist) = 1
Hex(n) == HexTextOf(ToBE(n, 32))
Call(name, args) == hist' = Append(hist, <<name>> \o args)

Init ==
    /\ u \in (CASE Profile = "ints" -> {<<a, b>> : a \in UVals, b \in UVals}
                [] Profile = "points" -> {<<<<2>>>>} [] OTHER -> {<<>>})
    /\ f \in (IF Profile = "field" THEN {<<a, b>> : a \in FVals, b \in FVals} ELSE {<<>>})
    /\ p \in (IF Profile = "points" THEN {<<a, b>> : a \in PVals, b \in PVals} ELSE {<<>>})
    /\ h = <<>> /\ d = <<>> /\ w = <<>> /\ leak = {}
    /\ out = [r |-> <<>>, s |-> <<>>, key |-> <<>>, hash |-> <<>>, version |-> 0, compressed |-> 0]
    /\ hist = <<<<"Init", [i \in 1..Len(u) |-> Hex(u[i])], [i \in 1..Len(f) |-> Hex(f[i])],
                 [i \in 1..Len(p) |-> [j \in 1..3 |-> Hex(p[i][j])]]>>>>

Ints ==
    \/ \E z, x, y \in R2, en \in Bit, ret \in Bit : UAdd(z, x, y, en, ret) /\ Call("UAdd", <<z, x, y, en>>)
    \/ \E z, x, y \in R2, en \in Bit, ret \in Bit : USub(z, x, y, en, ret) /\ Call("USub", <<z, x, y, en>>)
    \/ \E z, x \in R2, ret \in Bit : UShl1(z, x, ret) /\ Call("UShl1", <<z, x>>)
    \/ \E z, x \in R2, en \in Bit : UShr1(z, x, en) /\ Call("UShr1", <<z, x, en>>)
    \/ \E z, x \in R2, en \in Bit : (z # x \/ First) /\ UReplace(z, x, en) /\ Call("UReplace", <<z, x, en>>)
    \/ \E z, x \in R2, en \in Bit : (z # x \/ First) /\ USwap(z, x, en) /\ Call("USwap", <<z, x, en>>)
Fields ==
    \/ \E z, x, y \in R2 : FAddA(z, x, y) /\ Call("FAddA", <<z, x, y>>)
    \/ \E z, x, y \in R2 : FSubA(z, x, y) /\ Call("FSubA", <<z, x, y>>)
    \/ \E z, x, y \in R2 : FMulA(z, x, y) /\ Call("FMulA", <<z, x, y>>)
    \/ \E z, x \in R2 : FDblA(z, x) /\ Call("FDblA", <<z, x>>)
    \/ \E z, x \in R2 : FSqrA(z, x) /\ Call("FSqrA", <<z, x>>)
    \/ \E z, x \in R2, en \in Bit : (z # x \/ First) /\ FReplace(z, x, en) /\ Call("FReplace", <<z, x, en>>)
\* The machine here always takes the normal representation; the library need not.
Norm(P) == NormalTriple(P)
Points ==
    \/ \E z, x \in R2 : (z # x \/ First) /\ PAdd_(z, x, Norm(GAdd(ToGroup(p[z]), ToGroup(p[x])))) /\ Call("PAdd", <<z, x>>)
    \/ \E z \in R2 : PTwice(z, Norm(GDouble(ToGroup(p[z])))) /\ Call("PTwice", <<z>>)
    \/ \E z \in R2 : PNormalize(z) /\ Call("PNormalize", <<z>>)
    \/ \E z, x \in R2, en \in Bit : (z # x \/ First) /\ PReplace(z, x, en) /\ Call("PReplace", <<z, x, en>>)
    \/ \E x \in R2 : PIsZero(x, B2I(IsZeroTriple(p[x]))) /\ Call("PIsZero", <<x>>)
    \/ Len(hist) = 1 /\ PMul_(1, 1, Norm(GMul(u[1], ToGroup(p[1])))) /\ Call("PMul", <<1, 1>>)

Next == Len(hist) <= Depth /\ (CASE Profile = "ints" -> Ints [] Profile = "field" -> Fields [] Profile = "points" -> Points)
Spec == Init /\ [][Next]_gvars

Valid == TypeOK /\ \A i \in 1..Len(p) : IsPoint(p[i])
Emit == Len(hist) = Depth + 1 => PrintT(ToJson(hist))
=============================================================================
