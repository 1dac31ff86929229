------------------------------ MODULE GenWallet ------------------------------
(***************************************************************************)
(* All histories of two wallet registers of length MaxSteps, from the      *)
(* model MC_Wallet with stand-ins for the hash functions under which every *)
(* derivation succeeds: the harness replays them into the library.         *)
(***************************************************************************)
EXTENDS MC_Wallet, Json

TameMac(key, msg) == Zeros(31) \o <<1 + (msg[1] % 2)>> \o Zeros(32)
FewIndexes == {<<0, 0, 0, 7>>, <<128, 0, 0, 7>>}

VARIABLE hist
GInit == Init /\ hist = <<>>
GNext ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \/ /\ UNCHANGED <<text, last>>
          /\ \E k \in 1..2, j \in 1..2, i \in FewIndexes : WChild(k, j, i) /\ hist' = Append(hist, <<"child", k, j, i>>)
       \/ \E k \in 1..2 : w[k].key # BZero /\ text' = XprvEncode(w[k]) /\ XprvEnc(k, text') /\ UNCHANGED last /\ hist' = Append(hist, <<"write", k>>)
       \/ /\ text # <<>> /\ UNCHANGED <<text, last>>
          /\ \E k \in 1..2 : XprvDec(k, text, 1) /\ hist' = Append(hist, <<"read", k>>)
       \/ /\ UNCHANGED <<text, last>>
          /\ \E k \in 1..2 : XprvDec(k, <<49>>, 0) /\ hist' = Append(hist, <<"misread", k>>)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Live == \A k \in 1..2 : w[k].key # BZero \/ w[k] = BlankNode
Emit == steps = MaxSteps => PrintT(ToJson(hist))
=============================================================================
