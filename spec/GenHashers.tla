----------------------------- MODULE GenHashers -----------------------------
(***************************************************************************)
(* All histories of two hasher objects of length Depth: created, fed with  *)
(* pieces that end before, at and after a block, copied in either          *)
(* direction, finished.  Behaviours of BitcoinCrypto (with a stand-in for  *)
(* the digest, which does not matter here); the harness replays them.      *)
(***************************************************************************)
EXTENDS BitcoinCrypto, Json

CONSTANTS Depth, Block, Alg

Pieces == {0, 1, Block - 9, Block}
ToyDigest(alg, msg) == <<Len(msg)>>

VARIABLE hist
gvars == <<u, f, p, h, d, out, w, leak, hist>>
Init ==
    /\ u = <<>> /\ f = <<>> /\ p = <<>> /\ d = <<>> /\ w = <<>> /\ leak = {}
    /\ out = [r |-> <<>>, s |-> <<>>, key |-> <<>>]
    /\ h = [k \in 1..2 |-> NoHasher]
    /\ hist = <<>>
Say(x) == hist' = Append(hist, x)
Next ==
    /\ Len(hist) < Depth
    /\ \/ \E k \in 1..2 : ~h[k].live /\ (k = 1 \/ hist # <<>>) /\ HNew(k, Alg) /\ Say(<<"HNew", k>>)
       \/ \E k \in 1..2, n \in Pieces : HAppend(k, Zeros(n)) /\ Say(<<"HAppend", k, n>>)
       \/ \E k, j \in 1..2 : k # j /\ HCopy(k, j) /\ Say(<<"HCopy", k, j>>)
       \/ \E k \in 1..2 : h[k].live /\ HFinish(k, Digest(Alg, h[k].msg)) /\ Say(<<"HFinish", k>>)
Spec == Init /\ [][Next]_gvars

\* A copy and its original say the same unless one of them got more.
Independent == \A k \in 1..2 : ~h[k].live => h[k] = NoHasher
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
