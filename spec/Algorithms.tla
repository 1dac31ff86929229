------------------------------ MODULE Algorithms ------------------------------
(***************************************************************************)
(* The algorithms by which the library computes what Curve and EcdsaSpec   *)
(* define: complete addition of projective triples, windowed scalar        *)
(* multiplication, the binary reciprocal with its fixed number of steps,   *)
(* word-wise (Barrett) reduction.  The MC_ models show, exhaustively for   *)
(* small fields, words and curves, that they refine the definitions.       *)
(***************************************************************************)
EXTENDS Curve

ZeroTriple == <<<<>>, BOne, <<>>>>

\* Without the special cases, which the caller decides by selection.
AlgTwice(t) ==
    IF IsZeroTriple(t) \/ t[2] = <<>> THEN ZeroTriple
    ELSE LET X == t[1]  Y == t[2]  Z == t[3]
             a == FMul(<<3>>, FSqr(X))
             b == FMul(<<2>>, FMul(Y, Z))
             v == FMul(<<2>>, FMul(FMul(b, X), Y))
             ww == FSub(FSqr(a), FMul(<<2>>, v))
         IN <<FMul(b, ww), FSub(FMul(a, FSub(v, ww)), FMul(<<2>>, FSqr(FMul(b, Y)))), FMul(FSqr(b), b)>>
AlgAdd(s, t) ==
    LET u0 == FMul(s[1], t[3])  u1 == FMul(t[1], s[3])
        t0 == FMul(s[2], t[3])  t1 == FMul(t[2], s[3])
    IN IF IsZeroTriple(s) THEN t
       ELSE IF IsZeroTriple(t) THEN s
       ELSE IF u0 = u1 THEN (IF t0 = t1 THEN AlgTwice(s) ELSE ZeroTriple)
       ELSE LET tt == FSub(t0, t1)
                uu == FSub(u0, u1)
                u2 == FSqr(uu)
                v == FMul(s[3], t[3])
                ww == FSub(FMul(FSqr(tt), v), FMul(u2, FAdd(u0, u1)))
                u3 == FMul(uu, u2)
            IN <<FMul(uu, ww), FSub(FMul(tt, FSub(FMul(u0, u2), ww)), FMul(t0, u3)), FMul(u3, v)>>

\* n is an integer below 2^bits; bits is a multiple of the window width.
RECURSIVE AlgTable(_, _)
AlgTable(t, k) == IF k = 0 THEN <<ZeroTriple>>
                  ELSE LET s == AlgTable(t, k - 1)
                       IN Append(s, IF k = 1 THEN t ELSE IF k = 2 THEN AlgTwice(t) ELSE AlgAdd(s[k], t))
RECURSIVE AlgTwices(_, _)
AlgTwices(t, k) == IF k = 0 THEN t ELSE AlgTwices(AlgTwice(t), k - 1)
AlgMultiply(n, t, bits, width) ==
    LET table == AlgTable(t, 2^width - 1)
        digits == bits \div width
        digit(i) == (n \div 2^(width * (digits - i))) % 2^width
    IN FoldLeft(LAMBDA acc, i : LET s == AlgAdd(acc, table[digit(i) + 1])
                                IN IF i = digits THEN s ELSE AlgTwices(s, width),
                ZeroTriple, [i \in 1..digits |-> i])

AlgNormalize(t) ==
    IF t[3] = <<>> THEN <<IF t[1] = <<>> THEN <<>> ELSE BOne, IF t[2] = <<>> THEN <<>> ELSE BOne, <<>>>>
    ELSE LET zi == FInv(t[3]) IN <<FMul(t[1], zi), FMul(t[2], zi), BOne>>

----------------------------------------------------------------------------
(* The binary reciprocal of v modulo the odd m, both below 2^bits, with plain integers. *)

RecStep(st, m) ==
    LET even == st.y % 2 = 0
        y1 == IF even THEN st.y \div 2 ELSE st.y
        b1 == IF ~even THEN st.b ELSE IF st.b % 2 = 1 THEN st.b \div 2 + (m \div 2 + 1) ELSE st.b \div 2
        odd == y1 % 2 = 1
        sw == odd /\ st.x > y1
        X == IF sw THEN y1 ELSE st.x
        Y == IF sw THEN st.x ELSE y1
        A == IF sw THEN b1 ELSE st.a
        B == IF sw THEN st.a ELSE b1
    IN IF ~odd THEN [x |-> st.x, y |-> y1, a |-> st.a, b |-> b1]
       ELSE [x |-> X, y |-> Y - X, a |-> A, b |-> IF B >= A THEN B - A ELSE B - A + m]
RecStart(v, m) == [x |-> m, y |-> v, a |-> 0, b |-> 1]

----------------------------------------------------------------------------
(* Barrett reduction of a product below m^2, m = 2^bits - c, with plain integers. *)
BarrettQuotient(prod, m, bits) == (prod * (2^(2*bits) \div m)) \div 2^(2*bits)
BarrettRest(prod, m, bits) == prod - BarrettQuotient(prod, m, bits) * m
BarrettReduce(prod, m, bits) == LET r == BarrettRest(prod, m, bits) IN IF r >= m THEN r - m ELSE r
=============================================================================
