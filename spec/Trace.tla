-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Accepts the logs that drivers/ record from the real library if and only *)
(* if they are behaviours of BitcoinCrypto.  The file holds one trace per  *)
(* line:  [id, cfg, init, ev]; every trace is a separate initial state, so *)
(* that TLC's workers share the work.  An event is [op, a (arguments), r   *)
(* (what the call returned), and the observed state after the call]; a     *)
(* state component that is not in the event was observed to be unchanged.  *)
(* A trace that the specification rejects is a deadlock: no action of the  *)
(* machine explains the next event.                                        *)
(***************************************************************************)
EXTENDS BitcoinCrypto, Huge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l

vars == <<u, f, p, h, d, out, w, leak, tid, l>>

Nats(s) == FoldLeft(LAMBDA acc, x : Append(acc, HexNat(x)), <<>>, s)
Triples(s) == FoldLeft(LAMBDA acc, x : Append(acc, Nats(x)), <<>>, s)
ByteSeqs(s) == FoldLeft(LAMBDA acc, x : Append(acc, HexBytes(x)), <<>>, s)
OutOf(o) == [r |-> HexNat(o.r), s |-> HexNat(o.s), key |-> HexNat(o.key), hash |-> HexBytes(o.hash),
             version |-> o.version, compressed |-> o.compressed]
NodeOf(n) == [key |-> HexNat(n.key), chain |-> HexBytes(n.chain), depth |-> n.depth, index |-> HexBytes(n.index),
              parent |-> HexBytes(n.parent), pub |-> Nats(n.pub)]
NodesOf(s) == FoldLeft(LAMBDA acc, x : Append(acc, NodeOf(x)), <<>>, s)

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ LET i == Traces[tid].init
       IN /\ u = Nats(i.U)
          /\ f = Nats(i.F)
          /\ p = Triples(i.P)
          /\ d = ByteSeqs(i.D)
          /\ w = NodesOf(i.W)
          /\ out = OutOf(i.O)
    /\ h = [k \in 1..4 |-> NoHasher]
    /\ leak = {}

\* The action that the event claims to be, with the logged arguments and results.
Step(e) ==
    LET a == e.a
        r == e.r
        T(z) == Nats(e.P[z])          \* the representation that the library chose
    IN CASE e.op = "USet"       -> USet(a[1], HexNat(a[2]))
         [] e.op = "UCopy"      -> UCopy(a[1], a[2])
         [] e.op = "UAdd"       -> UAdd(a[1], a[2], a[3], a[4], r)
         [] e.op = "USub"       -> USub(a[1], a[2], a[3], a[4], r)
         [] e.op = "UShl1"      -> UShl1(a[1], a[2], r)
         [] e.op = "UShr1"      -> UShr1(a[1], a[2], a[3])
         [] e.op = "UInv"       -> UInv(a[1], a[2], a[3])
         [] e.op = "UReplace"   -> UReplace(a[1], a[2], a[3])
         [] e.op = "USwap"      -> USwap(a[1], a[2], a[3])
         [] e.op = "UCompare"   -> UCompare(a[1], a[2], r)
         [] e.op = "UToBytes"   -> UToBytes(a[1], HexBytes(r))
         [] e.op = "UFromBytes" -> UFromBytes(a[1], HexBytes(a[2])) /\ r = 0
         [] e.op = "UFromHex"   -> UFromHex(a[1], HexBytes(a[2]))
         [] e.op = "JUInv"      -> JUInv(a[1], a[2], a[3], r)
         [] e.op = "JUFromHex"  -> JUFromHex(a[1], a[2], r)
         [] e.op = "JUFromBytes" -> JUFromBytes(a[1], HexBytes(a[2]), r)
         [] e.op = "UToHex"     -> UToHex(a[1], r)
         [] e.op = "UFromF"     -> UFromF(a[1], a[2])
         [] e.op = "FSet"       -> FSet(a[1], HexNat(a[2]))
         [] e.op = "FFromU"     -> FFromU(a[1], a[2])
         [] e.op = "FFromHex"   -> FFromHex(a[1], HexBytes(a[2]))
         [] e.op = "FAddA"      -> FAddA(a[1], a[2], a[3])
         [] e.op = "FSubA"      -> FSubA(a[1], a[2], a[3])
         [] e.op = "FDblA"      -> FDblA(a[1], a[2])
         [] e.op = "FSqrA"      -> FSqrA(a[1], a[2])
         [] e.op = "FMulA"      -> FMulA(a[1], a[2], a[3])
         [] e.op = "FInvA"      -> FInvA(a[1], a[2])
         [] e.op = "FReplace"   -> FReplace(a[1], a[2], a[3])
         [] e.op = "FCompare"   -> FCompare(a[1], a[2], r)
         [] e.op = "FToBytes"   -> FToBytes(a[1], HexBytes(r))
         [] e.op = "PSet"       -> PSet(a[1], <<HexNat(a[2]), HexNat(a[3]), HexNat(a[4])>>)
         [] e.op = "PAdd"       -> PAdd_(a[1], a[2], T(a[1]))
         [] e.op = "PTwice"     -> PTwice(a[1], T(a[1]))
         [] e.op = "PMul"       -> PMul_(a[1], a[2], T(a[1]))
         [] e.op = "PNormalize" -> PNormalize(a[1])
         [] e.op = "PReplace"   -> PReplace(a[1], a[2], a[3])
         [] e.op = "PCopy"      -> PReplace(a[1], a[2], 1)
         [] e.op = "POnCurve"   -> POnCurve(a[1], r)
         [] e.op = "PIsZero"    -> PIsZero(a[1], r)
         [] e.op = "PEqual"     -> PEqual(a[1], a[2], r)
         [] e.op = "PCompress"  -> PCompress(a[1], HexBytes(r))
         [] e.op = "PPublic"    -> PPublic(a[1], a[2])
         [] e.op = "PBase"      -> PBase(a[1])
         [] e.op = "PZero"      -> PZero(a[1])
         [] e.op = "PFromHex"  -> PFromHex(a[1], HexBytes(a[2]), HexBytes(a[3]))
         [] e.op = "PFromXY"    -> PFromXY(a[1], a[2], a[3])
         [] e.op = "ESign"      -> ESign(HexNat(a[1]), HexBytes(a[2]), HexNat(a[3]), r)
         [] e.op = "ESignHmac"  -> ESignHmac(HexNat(a[1]), HexBytes(a[2]), r)
         [] e.op = "EVerify"    -> EVerify(<<HexNat(a[1]), HexNat(a[2]), HexNat(a[3])>>, HexBytes(a[4]), HexNat(a[5]), HexNat(a[6]), r)
         [] e.op = "EVerifyOwn" -> EVerifyOwn(HexNat(a[1]), HexBytes(a[2]), r)
         [] e.op = "HashOf"     -> HashOf(a[1], HexBytes(a[2]), HexBytes(r))
         [] e.op = "MacOf"      -> MacOf(a[1], HexBytes(a[2]), HexBytes(a[3]), HexBytes(r))
         [] e.op = "Compress256" -> Compress256(HexBytes(a[1]), HexBytes(a[2]), HexBytes(r))
         [] e.op = "HNew"       -> HNew(a[1], a[2])
         [] e.op = "HAppend"    -> HAppend(a[1], HexBytes(a[2])) /\ r = 0
         [] e.op = "HCopy"      -> HCopy(a[1], a[2])
         [] e.op = "HFinish"    -> HFinish(a[1], HexBytes(r))
         [] e.op = "HugeHash"   -> HexBytes(r) = HugeDigest(a[1], a[2]) /\ UNCHANGED allVars
         [] e.op = "DFromBytes" -> DFromBytes(a[1], HexBytes(a[2]))
         [] e.op = "DFromBadBytes" -> DFromBadBytes(HexBytes(a[1]), r)
         [] e.op = "DFromHex"   -> DFromHex(a[1], a[2], r)
         [] e.op = "DToBytes"   -> DToBytes(a[1], HexBytes(r))
         [] e.op = "DToHex"     -> DToHex(a[1], r)
         [] e.op = "DEqual"     -> DEqual(a[1], a[2], r)
         [] e.op = "DCompare"   -> DCompare(a[1], a[2], r)
         [] e.op = "DHashCodes" -> DHashCodes(a[1], a[2], r[1], r[2])
         [] e.op = "AddrEnc"    -> AddrEnc(a[1], HexBytes(a[2]), r)
         [] e.op = "AddrDec"    -> AddrDec(a[1], IF a[2] = 1 THEN {"version"} ELSE {}, r)
         [] e.op = "WifEnc"     -> WifEnc(a[1], HexNat(a[2]), a[3], r)
         [] e.op = "WifDec"     -> WifDec(a[1], (IF a[2] = 1 THEN {"version"} ELSE {}) \cup (IF a[3] = 1 THEN {"compressed"} ELSE {}), r)
         [] e.op = "OutPreset"  -> OnlyOut([out EXCEPT !.version = a[1], !.compressed = a[2]])
         [] e.op = "XprvEnc"    -> XprvEnc(a[1], r)
         [] e.op = "XprvDec"    -> XprvDec(a[1], a[2], r)
         [] e.op = "WBlank"     -> WBlank(a[1])
         [] e.op = "WNew"       -> WNew(a[1], HexNat(a[2]), HexBytes(a[3]), a[4], HexBytes(a[5]), HexBytes(a[6]))
         [] e.op = "WChild"     -> WChild(a[1], a[2], HexBytes(a[3]))
         [] e.op = "JB58Enc"    -> JB58Enc(HexBytes(a[1]), r)
         [] e.op = "JB58Dec"    -> JB58Dec(a[1], r.st, HexBytes(r.data))
         [] e.op = "B32Enc"     -> B32Enc(a[1], a[2], r.st, r.text)
         [] e.op = "B32Dec"     -> B32Dec(a[1], r.st, r.human, r.groups)
         [] e.op = "SegEnc"     -> SegEnc(a[1], a[2], HexBytes(a[3]), r.st, r.text)
         [] e.op = "SegDec"     -> SegDec(a[1], r.st, r.human, r.ver, HexBytes(r.prog))
         [] e.op = "KConsts"    -> KConsts([zero |-> HexNat(r.zero), one |-> HexNat(r.one), fizero |-> HexNat(r.fizero), fione |-> HexNat(r.fione),
                                            a |-> HexNat(r.a), b |-> HexNat(r.b), order |-> HexNat(r.order), g |-> Nats(r.g), identity |-> Nats(r.identity),
                                            harden |-> HexBytes(r.harden), alphabet |-> r.alphabet, digits |-> r.digits, sizes |-> r.sizes])
         [] e.op = "KConstsJava" -> KConstsJava([g |-> Nats(r.g), alphabet |-> r.alphabet, sizes |-> r.sizes])
         [] e.op = "KHexDigit"  -> KHexDigit(a[1], r)
         [] e.op = "KCopy"      -> KCopy(HexBytes(a[1]), a[2], a[3], a[4], HexBytes(r))
         [] e.op = "KStore"     -> KStore(HexBytes(a[1]), HexBytes(r))
         [] e.op = "JRefuse"    -> JRefuse(a[1], a[2], r.st, r.intact)
         [] e.op = "AsmCall"    -> AsmCall(a[1], HexNat(a[2]), HexNat(a[3]), a[4] % 2, r.ret, HexNat(r.z), HexNat(r.y), r.abi)
         [] e.op = "Observe"    -> Observe(a[1], r)
         [] OTHER -> FALSE          \* a crash, an unexpected exception, a hang, ...

\* The state that the event observed is the one that the action leads to.
Observed(e) ==
    /\ IF "U" \in DOMAIN e THEN u' = Nats(e.U) ELSE u' = u
    /\ IF "F" \in DOMAIN e THEN f' = Nats(e.F) ELSE f' = f
    /\ IF "P" \in DOMAIN e THEN p' = Triples(e.P) ELSE p' = p
    /\ IF "D" \in DOMAIN e THEN d' = ByteSeqs(e.D) ELSE d' = d
    /\ IF "W" \in DOMAIN e THEN w' = NodesOf(e.W) ELSE w' = w
    /\ IF "O" \in DOMAIN e THEN out' = OutOf(e.O) ELSE out' = out
    /\ e.guard        \* memory around the objects is untouched

TraceNext ==
    \/ /\ l <= Len(Traces[tid].ev)
       /\ LET e == Traces[tid].ev[l]
          IN Step(e) /\ Observed(e)
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ l > Len(Traces[tid].ev) /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
