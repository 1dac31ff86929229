------------------------------ MODULE MC_Threads ------------------------------
(***************************************************************************)
(* Calls that run at the same time.  A call is not atomic: it copies its   *)
(* arguments into scratch space piece by piece, works there, and stores    *)
(* the result piece by piece.  The library's scratch space is on the       *)
(* stack of the caller (Private): then every interleaving is a behaviour   *)
(* of the machine in which calls are atomic and each affects the thread's  *)
(* own objects only, which is what the traces of single threads are        *)
(* checked against.  With scratch space that calls share (the .cfg         *)
(* MC_Threads_shared) it is not; the harness expects TLC to say so.        *)
(* Supports C26.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Threads, Calls, Private

\* Objects are pairs of words; a call maps the thread's object to (hi + lo + 1, lo + k) of a small ring.
M == 4
F(o, k) == <<(o[1] + o[2] + k) % M, (o[2] + k) % M>>
Slot(t) == IF Private THEN t ELSE CHOOSE s \in Threads : TRUE

VARIABLES obj, scratch, pc, arg, left
vars == <<obj, scratch, pc, arg, left>>
Init == /\ obj \in [Threads -> {<<0, 0>>, <<1, 2>>}]
        /\ scratch = [t \in Threads |-> <<0, 0>>]
        /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Calls]
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Start(t) == left[t] > 0 /\ Go(t, "idle", "load1") /\ \E k \in 1..2 : arg' = [arg EXCEPT ![t] = k] /\ UNCHANGED <<obj, scratch, left>>
Load1(t) == Go(t, "load1", "load2") /\ scratch' = [scratch EXCEPT ![Slot(t)][1] = obj[t][1]] /\ UNCHANGED <<obj, arg, left>>
Load2(t) == Go(t, "load2", "work1") /\ scratch' = [scratch EXCEPT ![Slot(t)][2] = obj[t][2]] /\ UNCHANGED <<obj, arg, left>>
Work1(t) == Go(t, "work1", "work2") /\ scratch' = [scratch EXCEPT ![Slot(t)][1] = (@ + scratch[Slot(t)][2] + arg[t]) % M] /\ UNCHANGED <<obj, arg, left>>
Work2(t) == Go(t, "work2", "store") /\ scratch' = [scratch EXCEPT ![Slot(t)][2] = (@ + arg[t]) % M] /\ UNCHANGED <<obj, arg, left>>
Store(t) == Go(t, "store", "idle") /\ obj' = [obj EXCEPT ![t] = scratch[Slot(t)]] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<scratch, arg>>
Next == \E t \in Threads : Start(t) \/ Load1(t) \/ Load2(t) \/ Work1(t) \/ Work2(t) \/ Store(t)
Spec == Init /\ [][Next]_vars

\* The machine of atomic calls: one thread's object becomes F of it; nothing else ever changes.
Atomic == [][\E t \in Threads, k \in 1..2 : obj' = [obj EXCEPT ![t] = F(obj[t], k)]]_obj
OwnArgument == [][\A t \in Threads : obj'[t] # obj[t] => obj'[t] = F(obj[t], arg[t])]_vars
=============================================================================
