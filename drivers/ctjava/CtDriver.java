import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import io.nayuki.bitcoin.crypto.*;

/* 
 * The Java counterpart of ctdriver.cpp: runs the constant-time calls of a library whose classes Instrument has
 * rewritten, and prints what each execution looked like. Usage: java CtDriver SCRIPT
 */
public final class CtDriver {
	
	static final int W = 8, PW = 24;
	static final int A = 0, B = 8, C = 16, P = 24, Q = 48, TEMP = 72;
	static int[] val = new int[TEMP + CurvePointMath.MULTIPLY_TEMP_WORDS];
	static int[][] u = new int[4][W];
	static Sha256Hash[] d = new Sha256Hash[2];
	static byte[] bytes;
	static int e;
	static Object sink;
	
	static void setWords(int[] v, int off, String hex) {
		for (int i = 0; i < W; i++)
			v[off + i] = (int)Long.parseLong(hex.substring((W - 1 - i) * 8, (W - i) * 8), 16);
	}
	
	static byte[] unhex(String s) {
		byte[] b = new byte[s.length() / 2];
		for (int i = 0; i < b.length; i++)
			b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
		return b;
	}
	
	static boolean call(String op) {
		boolean r = true;
		Obs.begin();
		switch (op) {
			case "UAdd": Int256Math.uintAdd(val, A, B, e, C); break;
			case "USub": Int256Math.uintSubtract(val, A, B, e, C); break;
			case "UShl1": Int256Math.uintShiftLeft1(val, A, C); break;
			case "UShr1": Int256Math.uintShiftRight1(val, A, e, C); break;
			case "UInv": Int256Math.reciprocal(val, A, B, C, TEMP); break;
			case "UReplace": case "FReplace": Int256Math.replace(val, A, B, e); break;
			case "USwap": Int256Math.swap(val, A, B, e); break;
			case "UEq": case "FEq": Int256Math.equalTo(val, A, B); break;
			case "ULt": case "FLt": Int256Math.lessThan(val, A, B); break;
			case "FAddA": Int256Math.fieldAdd(val, A, B, C, TEMP); break;
			case "FSubA": Int256Math.fieldSubtract(val, A, B, C, TEMP); break;
			case "FDblA": Int256Math.fieldMultiply2(val, A, C, TEMP); break;
			case "FSqrA": Int256Math.fieldSquare(val, A, C, TEMP); break;
			case "FMulA": Int256Math.fieldMultiply(val, A, B, C, TEMP); break;
			case "PAdd": CurvePointMath.add(val, P, Q, TEMP); break;
			case "PTwice": CurvePointMath.twice(val, P, TEMP); break;
			case "PMul": CurvePointMath.multiply(val, P, A, TEMP); break;
			case "PNormalize": CurvePointMath.normalize(val, P, TEMP); break;
			case "PReplace": CurvePointMath.replace(val, P, Q, e); break;
			case "POnCurve": CurvePointMath.isOnCurve(val, P, TEMP); break;
			case "PIsZero": CurvePointMath.isZero(val, P); break;
			case "ESign": r = Ecdsa.sign(u[0], d[0], u[1], u[2], u[3]); break;
			case "ESignHmac": r = Ecdsa.signWithHmacNonce(u[0], d[0], u[2], u[3]); break;
			case "DFromBytes": sink = new Sha256Hash(bytes); break;
			case "DToBytes": sink = d[0].toBytes(); break;
			case "DHashCode": d[0].hashCode(); break;
			default: throw new AssertionError(op);
		}
		Obs.end();
		return r;
	}
	
	static void set(String[] t) {
		int nu = 0, nd = 0;
		for (int i = 2; i < t.length; i++) {
			String v = t[i].substring(2);
			switch (t[i].charAt(0)) {
				case 'u':
					setWords(u[nu], 0, v);
					setWords(val, A + nu * W, v);
					nu++;
					break;
				case 'f': setWords(val, A + nu * W, v); nu++; break;
				case 'x': setWords(val, P, v); break;
				case 'y': setWords(val, P + W, v); break;
				case 'z': setWords(val, P + 2 * W, v); break;
				case 'X': setWords(val, Q, v); break;
				case 'Y': setWords(val, Q + W, v); break;
				case 'Z': setWords(val, Q + 2 * W, v); break;
				case 'b': bytes = unhex(v); break;
				case 'd': d[nd++] = new Sha256Hash(unhex(v)); break;
				case 'e': e = Integer.parseInt(v); break;
				default: throw new AssertionError(t[i]);
			}
		}
	}
	
	public static void main(String[] args) throws Exception {
		Set<String> seen = new HashSet<>();
		StringBuilder sb = new StringBuilder();
		for (String line : Files.readAllLines(Paths.get(args[0]), StandardCharsets.US_ASCII)) {
			String[] t = line.trim().split(" +");
			if (seen.add(t[1])) {      // Whatever is initialized at the first call
				set(t);
				call(t[1]);
			}
			set(t);
			boolean r = call(t[1]);
			sb.append(String.format("{\"c\":\"%s\",\"o\":\"%016x\",\"n\":%d,\"r\":%d}\n", t[0], Obs.digest, Obs.steps, r ? 1 : 0));
		}
		System.out.print(sb);
		System.out.flush();
	}
	
}
