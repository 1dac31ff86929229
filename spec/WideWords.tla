------------------------------ MODULE WideWords ------------------------------
(***************************************************************************)
(* The word-by-word arithmetic of the library at its real width, for all   *)
(* values at once: Apalache turns the statements into integer arithmetic   *)
(* for an SMT solver.  x and y are any two 256-bit numbers in 32-bit words *)
(* (least significant first), v any 512-bit product of two residues; ci,   *)
(* bi, di, ei and fi are the carries and borrows of the library's loops.   *)
(* Supports C01, C02, C04.                                                 *)
(***************************************************************************)
EXTENDS Integers

W == 2^32
P == 2^256 - 2^32 - 977

W1 == 2^32
W2 == 2^64
W3 == 2^96
W4 == 2^128
W5 == 2^160
W6 == 2^192
W7 == 2^224
W8 == 2^256
W9 == 2^288
W10 == 2^320
W11 == 2^352
W12 == 2^384
W13 == 2^416
W14 == 2^448
W15 == 2^480
W16 == 2^512
W17 == 2^544
W18 == 2^576
W19 == 2^608
W20 == 2^640
W21 == 2^672
W22 == 2^704
W23 == 2^736

VARIABLES
  \* @type: Int;
  x0,
  \* @type: Int;
  x1,
  \* @type: Int;
  x2,
  \* @type: Int;
  x3,
  \* @type: Int;
  x4,
  \* @type: Int;
  x5,
  \* @type: Int;
  x6,
  \* @type: Int;
  x7,
  \* @type: Int;
  y0,
  \* @type: Int;
  y1,
  \* @type: Int;
  y2,
  \* @type: Int;
  y3,
  \* @type: Int;
  y4,
  \* @type: Int;
  y5,
  \* @type: Int;
  y6,
  \* @type: Int;
  y7,
  \* @type: Int;
  v0,
  \* @type: Int;
  v1,
  \* @type: Int;
  v2,
  \* @type: Int;
  v3,
  \* @type: Int;
  v4,
  \* @type: Int;
  v5,
  \* @type: Int;
  v6,
  \* @type: Int;
  v7,
  \* @type: Int;
  v8,
  \* @type: Int;
  v9,
  \* @type: Int;
  v10,
  \* @type: Int;
  v11,
  \* @type: Int;
  v12,
  \* @type: Int;
  v13,
  \* @type: Int;
  v14,
  \* @type: Int;
  v15

Words(a) == a >= 0 /\ a < W
Init ==
  /\ x0 \in Int /\ 0 <= x0 /\ x0 < W
  /\ x1 \in Int /\ 0 <= x1 /\ x1 < W
  /\ x2 \in Int /\ 0 <= x2 /\ x2 < W
  /\ x3 \in Int /\ 0 <= x3 /\ x3 < W
  /\ x4 \in Int /\ 0 <= x4 /\ x4 < W
  /\ x5 \in Int /\ 0 <= x5 /\ x5 < W
  /\ x6 \in Int /\ 0 <= x6 /\ x6 < W
  /\ x7 \in Int /\ 0 <= x7 /\ x7 < W
  /\ y0 \in Int /\ 0 <= y0 /\ y0 < W
  /\ y1 \in Int /\ 0 <= y1 /\ y1 < W
  /\ y2 \in Int /\ 0 <= y2 /\ y2 < W
  /\ y3 \in Int /\ 0 <= y3 /\ y3 < W
  /\ y4 \in Int /\ 0 <= y4 /\ y4 < W
  /\ y5 \in Int /\ 0 <= y5 /\ y5 < W
  /\ y6 \in Int /\ 0 <= y6 /\ y6 < W
  /\ y7 \in Int /\ 0 <= y7 /\ y7 < W
  /\ v0 \in Int /\ 0 <= v0 /\ v0 < W
  /\ v1 \in Int /\ 0 <= v1 /\ v1 < W
  /\ v2 \in Int /\ 0 <= v2 /\ v2 < W
  /\ v3 \in Int /\ 0 <= v3 /\ v3 < W
  /\ v4 \in Int /\ 0 <= v4 /\ v4 < W
  /\ v5 \in Int /\ 0 <= v5 /\ v5 < W
  /\ v6 \in Int /\ 0 <= v6 /\ v6 < W
  /\ v7 \in Int /\ 0 <= v7 /\ v7 < W
  /\ v8 \in Int /\ 0 <= v8 /\ v8 < W
  /\ v9 \in Int /\ 0 <= v9 /\ v9 < W
  /\ v10 \in Int /\ 0 <= v10 /\ v10 < W
  /\ v11 \in Int /\ 0 <= v11 /\ v11 < W
  /\ v12 \in Int /\ 0 <= v12 /\ v12 < W
  /\ v13 \in Int /\ 0 <= v13 /\ v13 < W
  /\ v14 \in Int /\ 0 <= v14 /\ v14 < W
  /\ v15 \in Int /\ 0 <= v15 /\ v15 < W
Next ==
  UNCHANGED <<x0, x1, x2, x3, x4, x5, x6, x7, y0, y1, y2, y3, y4, y5, y6, y7, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15>>
X == x0 + x1 * W1 + x2 * W2 + x3 * W3 + x4 * W4 + x5 * W5 + x6 * W6 + x7 * W7
Y == y0 + y1 * W1 + y2 * W2 + y3 * W3 + y4 * W4 + y5 * W5 + y6 * W6 + y7 * W7
V == v0 + v1 * W1 + v2 * W2 + v3 * W3 + v4 * W4 + v5 * W5 + v6 * W6 + v7 * W7 + v8 * W8 + v9 * W9 + v10 * W10 + v11 * W11 + v12 * W12 + v13 * W13 + v14 * W14 + v15 * W15

\* addition with carry
s0 == x0 + y0
c0 == s0 \div W
s1 == x1 + y1 + c0
c1 == s1 \div W
s2 == x2 + y2 + c1
c2 == s2 \div W
s3 == x3 + y3 + c2
c3 == s3 \div W
s4 == x4 + y4 + c3
c4 == s4 \div W
s5 == x5 + y5 + c4
c5 == s5 \div W
s6 == x6 + y6 + c5
c6 == s6 \div W
s7 == x7 + y7 + c6
c7 == s7 \div W
Added == c7 * 2^256 + (s0 % W) + (s1 % W) * W1 + (s2 % W) * W2 + (s3 % W) * W3 + (s4 % W) * W4 + (s5 % W) * W5 + (s6 % W) * W6 + (s7 % W) * W7 = X + Y /\ 0 <= c7 /\ c7 <= 1

\* subtraction with borrow
t0 == x0 - y0
b0 == -(t0 \div W)
t1 == x1 - y1 - b0
b1 == -(t1 \div W)
t2 == x2 - y2 - b1
b2 == -(t2 \div W)
t3 == x3 - y3 - b2
b3 == -(t3 \div W)
t4 == x4 - y4 - b3
b4 == -(t4 \div W)
t5 == x5 - y5 - b4
b5 == -(t5 \div W)
t6 == x6 - y6 - b5
b6 == -(t6 \div W)
t7 == x7 - y7 - b6
b7 == -(t7 \div W)
Subtracted == (t0 % W) + (t1 % W) * W1 + (t2 % W) * W2 + (t3 % W) * W3 + (t4 % W) * W4 + (t5 % W) * W5 + (t6 % W) * W6 + (t7 % W) * W7 - b7 * 2^256 = X - Y /\ (b7 = 1 \/ b7 = 0) /\ ((b7 = 1) <=> X < Y)

\* shifts by one bit, the bits that cross from word to word
Shifted == /\ ((2 * x0) % W) + (((2 * x1) % W) + (x0 \div 2^31)) * W1 + (((2 * x2) % W) + (x1 \div 2^31)) * W2 + (((2 * x3) % W) + (x2 \div 2^31)) * W3 + (((2 * x4) % W) + (x3 \div 2^31)) * W4 + (((2 * x5) % W) + (x4 \div 2^31)) * W5 + (((2 * x6) % W) + (x5 \div 2^31)) * W6 + (((2 * x7) % W) + (x6 \div 2^31)) * W7 + (x7 \div 2^31) * 2^256 = 2 * X
           /\ 2 * (((x0 \div 2) + (x1 % 2) * 2^31) + ((x1 \div 2) + (x2 % 2) * 2^31) * W1 + ((x2 \div 2) + (x3 % 2) * 2^31) * W2 + ((x3 \div 2) + (x4 % 2) * 2^31) * W3 + ((x4 \div 2) + (x5 % 2) * 2^31) * W4 + ((x5 \div 2) + (x6 % 2) * 2^31) * W5 + ((x6 \div 2) + (x7 % 2) * 2^31) * W6 + (x7 \div 2) * W7) + (x0 % 2) = X

\* comparison through a borrow that ends up as less, and through equality of all words
Compared == ((b7 = 1) <=> X < Y) /\ ((x0 = y0 /\ x1 = y1 /\ x2 = y2 /\ x3 = y3 /\ x4 = y4 /\ x5 = y5 /\ x6 = y6 /\ x7 = y7) <=> X = Y)

\* Barrett step 0: times floor(2^512 / P) = 2^256 + 2^32 + 977, 24 words
m0 == v0 * 977
d0 == m0 \div W
q0 == m0 % W
m1 == v1 * 977 + v0 + d0
d1 == m1 \div W
q1 == m1 % W
m2 == v2 * 977 + v1 + d1
d2 == m2 \div W
q2 == m2 % W
m3 == v3 * 977 + v2 + d2
d3 == m3 \div W
q3 == m3 % W
m4 == v4 * 977 + v3 + d3
d4 == m4 \div W
q4 == m4 % W
m5 == v5 * 977 + v4 + d4
d5 == m5 \div W
q5 == m5 % W
m6 == v6 * 977 + v5 + d5
d6 == m6 \div W
q6 == m6 % W
m7 == v7 * 977 + v6 + d6
d7 == m7 \div W
q7 == m7 % W
m8 == v8 * 977 + v7 + v0 + d7
d8 == m8 \div W
q8 == m8 % W
m9 == v9 * 977 + v8 + v1 + d8
d9 == m9 \div W
q9 == m9 % W
m10 == v10 * 977 + v9 + v2 + d9
d10 == m10 \div W
q10 == m10 % W
m11 == v11 * 977 + v10 + v3 + d10
d11 == m11 \div W
q11 == m11 % W
m12 == v12 * 977 + v11 + v4 + d11
d12 == m12 \div W
q12 == m12 % W
m13 == v13 * 977 + v12 + v5 + d12
d13 == m13 \div W
q13 == m13 % W
m14 == v14 * 977 + v13 + v6 + d13
d14 == m14 \div W
q14 == m14 % W
m15 == v15 * 977 + v14 + v7 + d14
d15 == m15 \div W
q15 == m15 % W
m16 == v15 + v8 + d15
d16 == m16 \div W
q16 == m16 % W
m17 == v9 + d16
d17 == m17 \div W
q17 == m17 % W
m18 == v10 + d17
d18 == m18 \div W
q18 == m18 % W
m19 == v11 + d18
d19 == m19 \div W
q19 == m19 % W
m20 == v12 + d19
d20 == m20 \div W
q20 == m20 % W
m21 == v13 + d20
d21 == m21 \div W
q21 == m21 % W
m22 == v14 + d21
d22 == m22 \div W
q22 == m22 % W
m23 == v15 + d22
d23 == m23 \div W
q23 == m23 % W
Residues == V <= (P - 1) * (P - 1)
Multiplier == 2^512 \div P = 2^256 + 2^32 + 977
Step0 == Residues => /\ q0 + q1 * W1 + q2 * W2 + q3 * W3 + q4 * W4 + q5 * W5 + q6 * W6 + q7 * W7 + q8 * W8 + q9 * W9 + q10 * W10 + q11 * W11 + q12 * W12 + q13 * W13 + q14 * W14 + q15 * W15 + q16 * W16 + q17 * W17 + q18 * W18 + q19 * W19 + q20 * W20 + q21 * W21 + q22 * W22 + q23 * W23 = V * (2^256 + 2^32 + 977) /\ d23 = 0
                     /\ m0 < 2^64 /\ d0 <= 979 /\ m1 < 2^64 /\ d1 <= 979 /\ m2 < 2^64 /\ d2 <= 979 /\ m3 < 2^64 /\ d3 <= 979 /\ m4 < 2^64 /\ d4 <= 979 /\ m5 < 2^64 /\ d5 <= 979 /\ m6 < 2^64 /\ d6 <= 979 /\ m7 < 2^64 /\ d7 <= 979 /\ m8 < 2^64 /\ d8 <= 979 /\ m9 < 2^64 /\ d9 <= 979 /\ m10 < 2^64 /\ d10 <= 979 /\ m11 < 2^64 /\ d11 <= 979 /\ m12 < 2^64 /\ d12 <= 979 /\ m13 < 2^64 /\ d13 <= 979 /\ m14 < 2^64 /\ d14 <= 979 /\ m15 < 2^64 /\ d15 <= 979 /\ m16 < 2^64 /\ d16 <= 979 /\ m17 < 2^64 /\ d17 <= 979 /\ m18 < 2^64 /\ d18 <= 979 /\ m19 < 2^64 /\ d19 <= 979 /\ m20 < 2^64 /\ d20 <= 979 /\ m21 < 2^64 /\ d21 <= 979 /\ m22 < 2^64 /\ d22 <= 979 /\ m23 < 2^64 /\ d23 <= 979

\* step 1: the top third times P, 16 words
n0 == 0 - x0 * 977
e0 == -(n0 \div W)
p0 == n0 % W
n1 == 0 - x1 * 977 - x0 - e0
e1 == -(n1 \div W)
p1 == n1 % W
n2 == 0 - x2 * 977 - x1 - e1
e2 == -(n2 \div W)
p2 == n2 % W
n3 == 0 - x3 * 977 - x2 - e2
e3 == -(n3 \div W)
p3 == n3 % W
n4 == 0 - x4 * 977 - x3 - e3
e4 == -(n4 \div W)
p4 == n4 % W
n5 == 0 - x5 * 977 - x4 - e4
e5 == -(n5 \div W)
p5 == n5 % W
n6 == 0 - x6 * 977 - x5 - e5
e6 == -(n6 \div W)
p6 == n6 % W
n7 == 0 - x7 * 977 - x6 - e6
e7 == -(n7 \div W)
p7 == n7 % W
n8 == x0 - x7 - e7
e8 == -(n8 \div W)
p8 == n8 % W
n9 == x1 - e8
e9 == -(n9 \div W)
p9 == n9 % W
n10 == x2 - e9
e10 == -(n10 \div W)
p10 == n10 % W
n11 == x3 - e10
e11 == -(n11 \div W)
p11 == n11 % W
n12 == x4 - e11
e12 == -(n12 \div W)
p12 == n12 % W
n13 == x5 - e12
e13 == -(n13 \div W)
p13 == n13 % W
n14 == x6 - e13
e14 == -(n14 \div W)
p14 == n14 % W
n15 == x7 - e14
e15 == -(n15 \div W)
p15 == n15 % W
Step1 == /\ p0 + p1 * W1 + p2 * W2 + p3 * W3 + p4 * W4 + p5 * W5 + p6 * W6 + p7 * W7 + p8 * W8 + p9 * W9 + p10 * W10 + p11 * W11 + p12 * W12 + p13 * W13 + p14 * W14 + p15 * W15 = X * P /\ e15 = 0
         /\ e0 >= 0 /\ e0 <= 979 /\ e1 >= 0 /\ e1 <= 979 /\ e2 >= 0 /\ e2 <= 979 /\ e3 >= 0 /\ e3 <= 979 /\ e4 >= 0 /\ e4 <= 979 /\ e5 >= 0 /\ e5 <= 979 /\ e6 >= 0 /\ e6 <= 979 /\ e7 >= 0 /\ e7 <= 979 /\ e8 >= 0 /\ e8 <= 979 /\ e9 >= 0 /\ e9 <= 979 /\ e10 >= 0 /\ e10 <= 979 /\ e11 >= 0 /\ e11 <= 979 /\ e12 >= 0 /\ e12 <= 979 /\ e13 >= 0 /\ e13 <= 979 /\ e14 >= 0 /\ e14 <= 979 /\ e15 >= 0 /\ e15 <= 979

\* the quotient estimate is the quotient or one less
Quotient == (V * (2^256 + 2^32 + 977)) \div 2^512
Reduces == Residues => V - Quotient * P >= 0 /\ V - Quotient * P < 2 * P /\ Quotient < 2^256

\* step 2: the difference fits in nine words, of which the last is a bit
g0 == v0 - p0
f0 == -(g0 \div W)
g1 == v1 - p1 - f0
f1 == -(g1 \div W)
g2 == v2 - p2 - f1
f2 == -(g2 \div W)
g3 == v3 - p3 - f2
f3 == -(g3 \div W)
g4 == v4 - p4 - f3
f4 == -(g4 \div W)
g5 == v5 - p5 - f4
f5 == -(g5 \div W)
g6 == v6 - p6 - f5
f6 == -(g6 \div W)
g7 == v7 - p7 - f6
f7 == -(g7 \div W)
g8 == v8 - p8 - f7
f8 == -(g8 \div W)
Step2 == V - X * P >= 0 /\ V - X * P < 2 * P => (g0 % W) + (g1 % W) * W1 + (g2 % W) * W2 + (g3 % W) * W3 + (g4 % W) * W4 + (g5 % W) * W5 + (g6 % W) * W6 + (g7 % W) * W7 + (g8 % W) * W8 = V - X * P /\ (g8 % W) <= 1

\* the last conditional subtraction of P, for a value (top bit h, words x) below 2 * P; additions and subtractions of residues end the same way
Less(a) == IF a >= P THEN (a - P) % 2^256 ELSE a
Final == \A h \in {0, 1} : LET a == h * 2^256 + X
                              r == IF h = 1 \/ X >= P THEN (X - P) % 2^256 ELSE X
                          IN a < 2 * P => r = (IF a >= P THEN a - P ELSE a) /\ r >= 0 /\ r < P
FieldAdd == X < P /\ Y < P => LET z == (X + Y) % 2^256
                                  c == (X + Y) \div 2^256
                                  r == IF c = 1 \/ z >= P THEN (z - P) % 2^256 ELSE z
                              IN r = (X + Y) % P
FieldSubtract == X < P /\ Y < P => LET z == (X - Y) % 2^256
                                       r == IF X < Y THEN (z + P) % 2^256 ELSE z
                                   IN r = (X - Y) % P
\* from any 256-bit number: one conditional subtraction is enough
FieldFrom == (IF X >= P THEN (X - P) % 2^256 ELSE X) = X % P

\* One step of the long multiplication: v0 * W + v1 is the product of two words; it fits in 64 bits with the word x0 and the carry y0.
Row == v0 * W + v1 <= (W - 1) * (W - 1) => v0 * W + v1 + x0 + y0 < 2^64 /\ (v0 * W + v1 + x0 + y0) \div W < W
=============================================================================
