package vx;

import java.math.BigInteger;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/* Fast evaluation of Huge!ZeroBlocks: the compression functions iterated on all-zero blocks. The round constants,
 * rotations and permutations are taken from the specification module at run time, so that this class holds no
 * constants of its own. HugeTest.tla compares it with the definition. */
public final class HugeOv implements ITLCOverrides {
	
	@SuppressWarnings("rawtypes")
	public Class[] get() {
		return new Class[]{HugeOv.class};
	}
	
	private static long[] longs(Value v) {
		Value[] e = ((TupleValue)v.toTuple()).elems;
		long[] r = new long[e.length];
		for (int i = 0; i < e.length; i++) {
			for (Value x : ((TupleValue)e[i].toTuple()).elems)
				r[i] = (r[i] << 16) | ((IntValue)x).val;
		}
		return r;
	}
	
	private static int[] ints(Value v) {
		Value[] e = ((TupleValue)v.toTuple()).elems;
		int[] r = new int[e.length];
		for (int i = 0; i < e.length; i++)
			r[i] = ((IntValue)e[i]).val;
		return r;
	}
	
	private static Value words(long[] x, int limbs) {
		Value[] r = new Value[x.length];
		for (int i = 0; i < x.length; i++) {
			Value[] w = new Value[limbs];
			long y = x[i];
			for (int k = limbs - 1; k >= 0; k--, y >>>= 16)
				w[k] = IntValue.gen((int)(y & 0xFFFF));
			r[i] = new TupleValue(w);
		}
		return new TupleValue(r);
	}
	
	private static final Map<String,TreeMap<Long,long[]>> cache = new HashMap<>();
	
	private static long toLong(Value n) {
		long r = 0;
		Value[] e = ((TupleValue)n.toTuple()).elems;
		for (int i = e.length - 1; i >= 0; i--)
			r = (r << 8) | ((IntValue)e[i]).val;
		return r;
	}
	
	/* tables = <<init, k, aux...>> */
	@TLAPlusOperator(identifier = "IterZero", module = "Huge", warn = false)
	public static Value iterZero(Value kind, Value tables, Value n) {
		String alg = ((StringValue)kind).val.toString();
		Value[] t = ((TupleValue)tables.toTuple()).elems;
		long count = toLong(n);
		TreeMap<Long,long[]> c;
		synchronized (cache) {
			c = cache.computeIfAbsent(alg, x -> new TreeMap<>());
		}
		synchronized (c) {
			Map.Entry<Long,long[]> e = c.floorEntry(count);
			long from = e == null ? 0 : e.getKey();
			long[] st = e == null ? longs(t[0]) : e.getValue().clone();
			switch (alg) {
				case "sha256": sha256(st, longs(t[1]), count - from); break;
				case "sha512": sha512(st, longs(t[1]), count - from); break;
				case "ripemd160": rmd(st, longs(t[1]), longs(t[2]), ints(t[3]), ints(t[4]), count - from); break;
				case "keccak256": keccak(st, longs(t[1]), ints(t[2]), count - from); break;
				default: throw new IllegalArgumentException(alg);
			}
			c.put(count, st.clone());
			return words(st, alg.equals("sha256") || alg.equals("ripemd160") ? 2 : 4);
		}
	}
	
	private static void sha256(long[] st, long[] kl, long n) {
		int[] k = new int[64], s = new int[8];
		for (int i = 0; i < 64; i++) k[i] = (int)kl[i];
		for (int i = 0; i < 8; i++) s[i] = (int)st[i];
		for (long j = 0; j < n; j++) {
			int a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
			for (int i = 0; i < 64; i++) {
				int t1 = h + (Integer.rotateRight(e, 6) ^ Integer.rotateRight(e, 11) ^ Integer.rotateRight(e, 25)) + ((e & f) ^ (~e & g)) + k[i];
				int t2 = (Integer.rotateRight(a, 2) ^ Integer.rotateRight(a, 13) ^ Integer.rotateRight(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
				h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
			}
			s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
		}
		for (int i = 0; i < 8; i++) st[i] = s[i] & 0xFFFFFFFFL;
	}
	
	private static void sha512(long[] s, long[] k, long n) {
		for (long j = 0; j < n; j++) {
			long a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
			for (int i = 0; i < 80; i++) {
				long t1 = h + (Long.rotateRight(e, 14) ^ Long.rotateRight(e, 18) ^ Long.rotateRight(e, 41)) + ((e & f) ^ (~e & g)) + k[i];
				long t2 = (Long.rotateRight(a, 28) ^ Long.rotateRight(a, 34) ^ Long.rotateRight(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
				h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
			}
			s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
		}
	}
	
	private static int f(int j, int x, int y, int z) {
		switch (j) {
			case 0: return x ^ y ^ z;
			case 1: return (x & y) | (~x & z);
			case 2: return (x | ~y) ^ z;
			case 3: return (x & z) | (y & ~z);
			default: return x ^ (y | ~z);
		}
	}
	
	private static void rmd(long[] st, long[] kl, long[] kr, int[] sl, int[] sr, long n) {
		int[] s = new int[5];
		for (int i = 0; i < 5; i++) s[i] = (int)st[i];
		for (long j = 0; j < n; j++) {
			int a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
			int A = a, B = b, C = c, D = d, E = e;
			for (int i = 0; i < 80; i++) {
				int t = Integer.rotateLeft(a + f(i / 16, b, c, d) + (int)kl[i / 16], sl[i]) + e;
				a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
				t = Integer.rotateLeft(A + f(4 - i / 16, B, C, D) + (int)kr[i / 16], sr[i]) + E;
				A = E; E = D; D = Integer.rotateLeft(C, 10); C = B; B = t;
			}
			int t = s[1] + c + D;
			s[1] = s[2] + d + E; s[2] = s[3] + e + A; s[3] = s[4] + a + B; s[4] = s[0] + b + C; s[0] = t;
		}
		for (int i = 0; i < 5; i++) st[i] = s[i] & 0xFFFFFFFFL;
	}
	
	/* Unrolled: lane 5y + x is in the local variable a<5y + x>. */
	private static void keccak(long[] a, long[] rc, int[] rot, long n) {
		long a0 = a[0], a1 = a[1], a2 = a[2], a3 = a[3], a4 = a[4], a5 = a[5], a6 = a[6], a7 = a[7], a8 = a[8], a9 = a[9], a10 = a[10], a11 = a[11], a12 = a[12], a13 = a[13], a14 = a[14], a15 = a[15], a16 = a[16], a17 = a[17], a18 = a[18], a19 = a[19], a20 = a[20], a21 = a[21], a22 = a[22], a23 = a[23], a24 = a[24];
		final int r0 = rot[0], r1 = rot[1], r2 = rot[2], r3 = rot[3], r4 = rot[4], r5 = rot[5], r6 = rot[6], r7 = rot[7], r8 = rot[8], r9 = rot[9], r10 = rot[10], r11 = rot[11], r12 = rot[12], r13 = rot[13], r14 = rot[14], r15 = rot[15], r16 = rot[16], r17 = rot[17], r18 = rot[18], r19 = rot[19], r20 = rot[20], r21 = rot[21], r22 = rot[22], r23 = rot[23], r24 = rot[24];
		for (long j = 0; j < n; j++) {
			for (int r = 0; r < 24; r++) {
				long c0 = a0 ^ a5 ^ a10 ^ a15 ^ a20;
				long c1 = a1 ^ a6 ^ a11 ^ a16 ^ a21;
				long c2 = a2 ^ a7 ^ a12 ^ a17 ^ a22;
				long c3 = a3 ^ a8 ^ a13 ^ a18 ^ a23;
				long c4 = a4 ^ a9 ^ a14 ^ a19 ^ a24;
				long d0 = c4 ^ Long.rotateLeft(c1, 1);
				long d1 = c0 ^ Long.rotateLeft(c2, 1);
				long d2 = c1 ^ Long.rotateLeft(c3, 1);
				long d3 = c2 ^ Long.rotateLeft(c4, 1);
				long d4 = c3 ^ Long.rotateLeft(c0, 1);
				long b0 = Long.rotateLeft(a0 ^ d0, r0);
				long b10 = Long.rotateLeft(a1 ^ d1, r1);
				long b20 = Long.rotateLeft(a2 ^ d2, r2);
				long b5 = Long.rotateLeft(a3 ^ d3, r3);
				long b15 = Long.rotateLeft(a4 ^ d4, r4);
				long b16 = Long.rotateLeft(a5 ^ d0, r5);
				long b1 = Long.rotateLeft(a6 ^ d1, r6);
				long b11 = Long.rotateLeft(a7 ^ d2, r7);
				long b21 = Long.rotateLeft(a8 ^ d3, r8);
				long b6 = Long.rotateLeft(a9 ^ d4, r9);
				long b7 = Long.rotateLeft(a10 ^ d0, r10);
				long b17 = Long.rotateLeft(a11 ^ d1, r11);
				long b2 = Long.rotateLeft(a12 ^ d2, r12);
				long b12 = Long.rotateLeft(a13 ^ d3, r13);
				long b22 = Long.rotateLeft(a14 ^ d4, r14);
				long b23 = Long.rotateLeft(a15 ^ d0, r15);
				long b8 = Long.rotateLeft(a16 ^ d1, r16);
				long b18 = Long.rotateLeft(a17 ^ d2, r17);
				long b3 = Long.rotateLeft(a18 ^ d3, r18);
				long b13 = Long.rotateLeft(a19 ^ d4, r19);
				long b14 = Long.rotateLeft(a20 ^ d0, r20);
				long b24 = Long.rotateLeft(a21 ^ d1, r21);
				long b9 = Long.rotateLeft(a22 ^ d2, r22);
				long b19 = Long.rotateLeft(a23 ^ d3, r23);
				long b4 = Long.rotateLeft(a24 ^ d4, r24);
				a0 = b0 ^ (~b1 & b2);
				a1 = b1 ^ (~b2 & b3);
				a2 = b2 ^ (~b3 & b4);
				a3 = b3 ^ (~b4 & b0);
				a4 = b4 ^ (~b0 & b1);
				a5 = b5 ^ (~b6 & b7);
				a6 = b6 ^ (~b7 & b8);
				a7 = b7 ^ (~b8 & b9);
				a8 = b8 ^ (~b9 & b5);
				a9 = b9 ^ (~b5 & b6);
				a10 = b10 ^ (~b11 & b12);
				a11 = b11 ^ (~b12 & b13);
				a12 = b12 ^ (~b13 & b14);
				a13 = b13 ^ (~b14 & b10);
				a14 = b14 ^ (~b10 & b11);
				a15 = b15 ^ (~b16 & b17);
				a16 = b16 ^ (~b17 & b18);
				a17 = b17 ^ (~b18 & b19);
				a18 = b18 ^ (~b19 & b15);
				a19 = b19 ^ (~b15 & b16);
				a20 = b20 ^ (~b21 & b22);
				a21 = b21 ^ (~b22 & b23);
				a22 = b22 ^ (~b23 & b24);
				a23 = b23 ^ (~b24 & b20);
				a24 = b24 ^ (~b20 & b21);
				a0 ^= rc[r];
			}
		}
		a[0] = a0;
		a[1] = a1;
		a[2] = a2;
		a[3] = a3;
		a[4] = a4;
		a[5] = a5;
		a[6] = a6;
		a[7] = a7;
		a[8] = a8;
		a[9] = a9;
		a[10] = a10;
		a[11] = a11;
		a[12] = a12;
		a[13] = a13;
		a[14] = a14;
		a[15] = a15;
		a[16] = a16;
		a[17] = a17;
		a[18] = a18;
		a[19] = a19;
		a[20] = a20;
		a[21] = a21;
		a[22] = a22;
		a[23] = a23;
		a[24] = a24;
	}
	
}
