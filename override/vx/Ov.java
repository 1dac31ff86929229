package vx;

import java.math.BigInteger;
import tlc2.overrides.*;
import tlc2.value.impl.*;
import util.Assert;

/* Fast evaluation, inside TLC, of the operators that spec/BigNat.tla and spec/Words.tla define.
 * SelfTest.tla compares every one of them with its definition. */
public final class Ov implements ITLCOverrides {
	
	@SuppressWarnings("rawtypes")
	public Class[] get() {
		return new Class[]{Ov.class};
	}
	
	private static final IntValue[] INTS = new IntValue[65536];
	static {
		for (int i = 0; i < INTS.length; i++)
			INTS[i] = IntValue.gen(i);
	}
	
	private static IntValue iv(int x) {
		return x >= 0 && x < INTS.length ? INTS[x] : IntValue.gen(x);
	}
	
	private static int in(Value v) {
		if (!(v instanceof IntValue))
			throw new IllegalArgumentException("integer expected: " + v);
		return ((IntValue)v).val;
	}
	
	/* A sequence value as an array of Values. */
	private static Value[] tup(Value v) {
		if (v instanceof TupleValue)
			return ((TupleValue)v).elems;
		TupleValue t = (TupleValue)v.toTuple();
		if (t == null)
			throw new IllegalArgumentException("sequence expected: " + v);
		return t.elems;
	}
	
	private static BigInteger big(Value v) {
		Value[] e = tup(v);
		int n = e.length;
		byte[] b = new byte[n];
		for (int i = 0; i < n; i++) {
			int d = in(e[i]);
			if (d < 0 || d > 255)
				throw new IllegalArgumentException("digit out of range: " + d);
			b[n - 1 - i] = (byte)d;
		}
		return new BigInteger(1, b);
	}
	
	private static Value nat(BigInteger x) {
		if (x.signum() < 0)
			throw new IllegalArgumentException("negative number");
		int n = (x.bitLength() + 7) / 8;
		byte[] b = x.toByteArray();
		Value[] e = new Value[n];
		for (int i = 0; i < n; i++)
			e[i] = iv(b[b.length - 1 - i] & 0xFF);
		return new TupleValue(e);
	}
	
	@TLAPlusOperator(identifier = "BTrim", module = "BigNat", warn = false)
	public static Value bTrim(Value s) { return nat(big(s)); }
	
	@TLAPlusOperator(identifier = "BAdd", module = "BigNat", warn = false)
	public static Value bAdd(Value a, Value b) { return nat(big(a).add(big(b))); }
	
	@TLAPlusOperator(identifier = "BSub", module = "BigNat", warn = false)
	public static Value bSub(Value a, Value b) { return nat(big(a).subtract(big(b))); }
	
	@TLAPlusOperator(identifier = "BCmp", module = "BigNat", warn = false)
	public static Value bCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
	
	@TLAPlusOperator(identifier = "BMul", module = "BigNat", warn = false)
	public static Value bMul(Value a, Value b) { return nat(big(a).multiply(big(b))); }
	
	@TLAPlusOperator(identifier = "BDiv", module = "BigNat", warn = false)
	public static Value bDiv(Value a, Value m) { return nat(big(a).divide(big(m))); }
	
	@TLAPlusOperator(identifier = "BMod", module = "BigNat", warn = false)
	public static Value bMod(Value a, Value m) { return nat(big(a).mod(big(m))); }
	
	@TLAPlusOperator(identifier = "BAddMod", module = "BigNat", warn = false)
	public static Value bAddMod(Value a, Value b, Value m) { return nat(big(a).add(big(b)).mod(big(m))); }
	
	@TLAPlusOperator(identifier = "BSubMod", module = "BigNat", warn = false)
	public static Value bSubMod(Value a, Value b, Value m) { return nat(big(a).subtract(big(b)).mod(big(m))); }
	
	@TLAPlusOperator(identifier = "BMulMod", module = "BigNat", warn = false)
	public static Value bMulMod(Value a, Value b, Value m) { return nat(big(a).multiply(big(b)).mod(big(m))); }
	
	@TLAPlusOperator(identifier = "BInv", module = "BigNat", warn = false)
	public static Value bInv(Value a, Value m) {
		BigInteger x = big(a), y = big(m);
		if (y.equals(BigInteger.ONE) || !x.gcd(y).equals(BigInteger.ONE))
			return nat(BigInteger.ZERO);
		return nat(x.modInverse(y));
	}
	
	@TLAPlusOperator(identifier = "BFromInt", module = "BigNat", warn = false)
	public static Value bFromInt(Value n) { return nat(BigInteger.valueOf(in(n))); }
	
	@TLAPlusOperator(identifier = "BBit", module = "BigNat", warn = false)
	public static Value bBit(Value a, Value i) {
		Value[] e = tup(a);
		int k = in(i);
		return (k >> 3) < e.length ? iv((in(e[k >> 3]) >> (k & 7)) & 1) : iv(0);
	}
	
	@TLAPlusOperator(identifier = "HexBytes", module = "BigNat", warn = false)
	public static Value hexBytes(Value s) {
		String t = ((StringValue)s).val.toString();
		Value[] e = new Value[t.length() / 2];
		for (int i = 0; i < e.length; i++) {
			int hi = "0123456789abcdef".indexOf(t.charAt(2 * i)), lo = "0123456789abcdef".indexOf(t.charAt(2 * i + 1));
			if (hi < 0 || lo < 0)
				throw new IllegalArgumentException("hexadecimal digits expected: " + t);
			e[i] = iv(hi * 16 + lo);
		}
		return new TupleValue(e);
	}
	
	@TLAPlusOperator(identifier = "FromBE", module = "BigNat", warn = false)
	public static Value fromBE(Value s) {
		Value[] e = tup(s);
		byte[] b = new byte[e.length];
		for (int i = 0; i < b.length; i++)
			b[i] = (byte)in(e[i]);
		return nat(new BigInteger(1, b));
	}
	
	@TLAPlusOperator(identifier = "ToBE", module = "BigNat", warn = false)
	public static Value toBE(Value a, Value n) {
		Value[] e = tup(a);
		Value[] r = new Value[in(n)];
		for (int i = 0; i < r.length; i++) {
			int j = r.length - 1 - i;
			r[i] = j < e.length ? e[j] : iv(0);
		}
		return new TupleValue(r);
	}
	
	/*---- Words ----*/
	
	private static long word(Value v) {
		Value[] e = tup(v);
		long r = 0;
		for (int i = 0; i < e.length; i++)
			r = (r << 16) | in(e[i]);
		return r;
	}
	
	private static Value word(long x, int limbs) {
		Value[] r = new Value[limbs];
		for (int i = limbs - 1; i >= 0; i--, x >>>= 16)
			r[i] = iv((int)(x & 0xFFFF));
		return new TupleValue(r);
	}
	
	@TLAPlusOperator(identifier = "WAdd", module = "Words", warn = false)
	public static Value wAdd(Value a, Value b) { return word(word(a) + word(b), tup(a).length); }
	
	@TLAPlusOperator(identifier = "WXor", module = "Words", warn = false)
	public static Value wXor(Value a, Value b) { return word(word(a) ^ word(b), tup(a).length); }
	
	@TLAPlusOperator(identifier = "WAnd", module = "Words", warn = false)
	public static Value wAnd(Value a, Value b) { return word(word(a) & word(b), tup(a).length); }
	
	@TLAPlusOperator(identifier = "WOr", module = "Words", warn = false)
	public static Value wOr(Value a, Value b) { return word(word(a) | word(b), tup(a).length); }
	
	@TLAPlusOperator(identifier = "WNot", module = "Words", warn = false)
	public static Value wNot(Value a) { return word(~word(a), tup(a).length); }
	
	@TLAPlusOperator(identifier = "WRotr", module = "Words", warn = false)
	public static Value wRotr(Value a, Value n) {
		int k = tup(a).length, w = 16 * k, s = in(n);
		long x = word(a);
		return word(s == 0 ? x : (x >>> s) | (x << (w - s)), k);
	}
	
	@TLAPlusOperator(identifier = "WShr", module = "Words", warn = false)
	public static Value wShr(Value a, Value n) { return word(word(a) >>> in(n), tup(a).length); }
	
}
