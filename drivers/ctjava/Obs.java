/* What an execution looks like from outside: a digest of the blocks entered, the array indexes used and the divisors. */
public final class Obs {
	
	static boolean watching = false;
	static long digest, steps;
	
	static void begin() {
		digest = 1;
		steps = 0;
		watching = true;
	}
	
	static void end() { watching = false; }
	
	private static void note(long x) {
		digest = (digest ^ x) * 0x9E3779B97F4A7C15L;
		digest ^= digest >>> 29;
		steps++;
	}
	
	public static void block(int id) { if (watching) note(id); }
	public static void load(Object a, int i) { if (watching) note((1L << 40) + i); }
	public static void store(Object a, int i) { if (watching) note((2L << 40) + i); }
	public static void divide(int x) { if (watching) note((3L << 40) ^ x); }
	public static void divide(long x) { if (watching) note((4L << 40) ^ x); }
	
	public static void big(java.math.BigInteger x) { if (watching) note((5L << 40) + x.hashCode()); }
	
	
	/*---- Replacements of methods of the Java library ----*/
	
	private static int mismatch(int an, int bn, java.util.function.IntBinaryOperator differ) {
		int n = Math.min(an, bn), i = 0;
		while (i < n && differ.applyAsInt(i, i) == 0)
			i++;
		if (watching) note((6L << 40) + i);
		return i < n || an != bn ? i : -1;
	}
	
	public static int mismatch(byte[] a, byte[] b) { return mismatch(a.length, b.length, (i, j) -> a[i] ^ b[j]); }
	public static int mismatch(int[] a, int[] b) { return mismatch(a.length, b.length, (i, j) -> a[i] ^ b[j]); }
	public static boolean equals(byte[] a, byte[] b) { return a == b || a != null && b != null && mismatch(a, b) == -1; }
	public static boolean equals(int[] a, int[] b) { return a == b || a != null && b != null && mismatch(a, b) == -1; }
	public static int compare(byte[] a, byte[] b) { mismatch(a, b); return java.util.Arrays.compare(a, b); }
	public static int compare(int[] a, int[] b) { mismatch(a, b); return java.util.Arrays.compare(a, b); }
	public static int compareUnsigned(byte[] a, byte[] b) { mismatch(a, b); return java.util.Arrays.compareUnsigned(a, b); }
	public static int compareUnsigned(int[] a, int[] b) { mismatch(a, b); return java.util.Arrays.compareUnsigned(a, b); }
	
	private static void range(int a, int b, int n) {
		if (!watching) return;
		note((7L << 40) + a);
		note((8L << 40) + b);
		note((9L << 40) + n);
	}
	
	public static void arraycopy(Object s, int so, Object d, int dO, int n) { range(so, dO, n); System.arraycopy(s, so, d, dO, n); }
	public static void fill(int[] a, int from, int to, int x) { range(from, to, 0); java.util.Arrays.fill(a, from, to, x); }
	public static void fill(byte[] a, int from, int to, byte x) { range(from, to, 0); java.util.Arrays.fill(a, from, to, x); }
	
}
