/* 
 * Replays scripts of public calls against the Java library and logs, after every call, what the call returned
 * and the state of all the objects that a caller can see. spec/Trace.tla says which logs are acceptable.
 * 
 * Usage: java Driver SCRIPT [threads]
 */

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.atomic.AtomicInteger;
import io.nayuki.bitcoin.crypto.*;


public final class Driver {
	
	private static final int W = 8;            // Words per number
	private static final int PW = 24;          // Words per point
	private static final int GUARD = 0x5EA1C3D7;
	private static final int TEMP_FILL = 0xA7E3B1D5;
	
	/*---- Text helpers ----*/
	
	static String hexOf(byte[] b) {
		StringBuilder sb = new StringBuilder();
		for (byte x : b) {
			sb.append(Character.forDigit((x >> 4) & 15, 16));
			sb.append(Character.forDigit(x & 15, 16));
		}
		return sb.toString();
	}
	
	static byte[] unhex(String s) {
		if (s.equals("-"))
			return new byte[0];
		byte[] b = new byte[s.length() / 2];
		for (int i = 0; i < b.length; i++)
			b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
		return b;
	}
	
	/* Text arguments: four hexadecimal digits per UTF-16 unit. */
	static String text(String s) {
		if (s.equals("-"))
			return "";
		StringBuilder sb = new StringBuilder();
		for (int i = 0; i < s.length(); i += 4)
			sb.append((char)Integer.parseInt(s.substring(i, i + 4), 16));
		return sb.toString();
	}
	
	static String q(String s) { return "\"" + s + "\""; }
	
	static String chars(String s) {
		StringBuilder sb = new StringBuilder("[");
		for (int i = 0; i < s.length(); i++)
			sb.append(i > 0 ? "," : "").append((int)s.charAt(i));
		return sb.append("]").toString();
	}
	
	static String ints(byte[] b) {
		StringBuilder sb = new StringBuilder("[");
		for (int i = 0; i < b.length; i++)
			sb.append(i > 0 ? "," : "").append(b[i]);
		return sb.append("]").toString();
	}
	
	static String wordsHex(int[] v, int off) {
		StringBuilder sb = new StringBuilder();
		for (int i = W - 1; i >= 0; i--) {
			String h = Integer.toHexString(v[off + i]);
			for (int k = h.length(); k < 8; k++)
				sb.append('0');
			sb.append(h);
		}
		return sb.toString();
	}
	
	static void setWords(int[] v, int off, String hex) {
		for (int i = 0; i < W; i++)
			v[off + i] = (int)Long.parseLong(hex.substring((W - 1 - i) * 8, (W - i) * 8), 16);
	}
	
	static int[] words(String... hex) {
		int[] r = new int[W * hex.length];
		for (int i = 0; i < hex.length; i++)
			setWords(r, i * W, hex[i]);
		return r;
	}
	
	
	/* With threads, equal hash values are one object that all of them use. */
	static java.util.concurrent.ConcurrentHashMap<String,Sha256Hash> shared = null;
	
	static Sha256Hash hashValue(byte[] b) {
		if (shared == null)
			return new Sha256Hash(b);
		return shared.computeIfAbsent(hexOf(b), k -> new Sha256Hash(b));
	}
	
	
	/*---- Session ----*/
	
	static final class Session {
		final int nu, nf, np, nd;
		final int uOff, fOff, pOff, guardOff, tempOff;
		final boolean tempFirst;
		int[] val;
		Sha256Hash[] d;
		int[] outR = words("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");
		int[] outS = words("bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb");
		
		/* The memory: registers, then 8 guard words, then scratch space of the size that each call declares. */
		Session(int[] n) {
			nu = n[0]; nf = n[1]; np = n[2]; nd = n[3];
			tempFirst = n[5] == 1;
			int base = tempFirst ? W + CurvePointMath.MULTIPLY_TEMP_WORDS + W : W;
			uOff = base;
			fOff = uOff + nu * W;
			pOff = fOff + nf * W;
			guardOff = pOff + np * PW;
			tempOff = tempFirst ? W : guardOff + W;
			val = new int[guardOff + W + (tempFirst ? 0 : CurvePointMath.MULTIPLY_TEMP_WORDS)];
			Arrays.fill(val, GUARD);
			Arrays.fill(val, uOff, guardOff, 0);
			for (int i = 0; i < np; i++)
				val[pOff + i * PW + W] = 1;
			d = new Sha256Hash[nd];
			for (int i = 0; i < nd; i++)
				d[i] = new Sha256Hash(new byte[32]);
		}
		
		/* Arguments are handed over in the same arrays again and again, with new contents each time. */
		final Map<String,int[]> wordArgs = new HashMap<>();
		final Map<String,byte[]> byteArgs = new HashMap<>();
		final Map<String,Sha256Hash> hashArgs = new HashMap<>();
		
		int[] arg(String name, String... hex) {
			int[] r = wordArgs.computeIfAbsent(name, k -> new int[W * hex.length]);
			for (int i = 0; i < hex.length; i++)
				setWords(r, i * W, hex[i]);
			return r;
		}
		
		byte[] bytes(String name, String hex) {
			byte[] b = unhex(hex), r = byteArgs.computeIfAbsent(name + b.length, k -> new byte[b.length]);
			System.arraycopy(b, 0, r, 0, b.length);
			return r;
		}
		
		Sha256Hash hash(String hex) {
			return shared != null ? hashValue(unhex(hex)) : hashArgs.computeIfAbsent(hex, k -> new Sha256Hash(unhex(k)));
		}
		
		int u(String s) { return uOff + (Integer.parseInt(s) - 1) * W; }
		int f(String s) { return fOff + (Integer.parseInt(s) - 1) * W; }
		int p(String s) { return pOff + (Integer.parseInt(s) - 1) * PW; }
		
		/* Scratch space of exactly the declared size: when it is last in memory, the array ends with it. */
		int temp(int size) {
			if (tempFirst) {
				Arrays.fill(val, tempOff, tempOff + size, TEMP_FILL);
				Arrays.fill(val, tempOff + size, tempOff + CurvePointMath.MULTIPLY_TEMP_WORDS, GUARD);
				tempSize = size;
			} else {
				val = Arrays.copyOf(val, tempOff + size);
				Arrays.fill(val, tempOff, tempOff + size, TEMP_FILL);
			}
			return tempOff;
		}
		int tempSize = 0;
		
		boolean guardsIntact() {
			for (int i = 0; i < W; i++) {
				if (val[i] != GUARD || val[guardOff + i] != GUARD)
					return false;
			}
			if (tempFirst) {
				for (int i = tempOff + tempSize; i < uOff; i++) {
					if (val[i] != GUARD)
						return false;
				}
			}
			return true;
		}
		
		String state() {
			StringBuilder sb = new StringBuilder();
			if (nu > 0) {
				sb.append(",\"U\":[");
				for (int i = 0; i < nu; i++)
					sb.append(i > 0 ? "," : "").append(q(wordsHex(val, uOff + i * W)));
				sb.append("]");
			}
			if (nf > 0) {
				sb.append(",\"F\":[");
				for (int i = 0; i < nf; i++)
					sb.append(i > 0 ? "," : "").append(q(wordsHex(val, fOff + i * W)));
				sb.append("]");
			}
			if (np > 0) {
				sb.append(",\"P\":[");
				for (int i = 0; i < np; i++) {
					int o = pOff + i * PW;
					sb.append(i > 0 ? "," : "").append("[" + q(wordsHex(val, o)) + "," + q(wordsHex(val, o + W)) + "," + q(wordsHex(val, o + 2 * W)) + "]");
				}
				sb.append("]");
			}
			if (nd > 0) {
				sb.append(",\"D\":[");
				for (int i = 0; i < nd; i++)
					sb.append(i > 0 ? "," : "").append(q(hexOf(d[i].toBytes())));
				sb.append("]");
			}
			sb.append(",\"O\":{\"r\":" + q(wordsHex(outR, 0)) + ",\"s\":" + q(wordsHex(outS, 0)) + "}");
			sb.append(",\"guard\":" + guardsIntact());
			return sb.toString();
		}
		
		String relations(int x, int y) {
			int eq = Int256Math.equalTo(val, x, y), lt = Int256Math.lessThan(val, x, y), gt = Int256Math.lessThan(val, y, x);
			if ((eq >>> 1) != 0 || (lt >>> 1) != 0 || (gt >>> 1) != 0)
				return "[" + eq + "," + lt + "," + gt + "]";
			return "[" + (eq == 1) + "," + (eq == 0) + "," + (lt == 1) + "," + (gt == 0) + "," + (gt == 1) + "," + (lt == 0) + "]";
		}
		
		String run(String[] t) {
			switch (t[0]) {
				/*---- Uint256 ----*/
				case "USet": setWords(val, u(t[1]), t[2]); return "0";
				case "UCopy": Int256Math.copy(val, u(t[2]), val, u(t[1])); return "0";
				case "UAdd": return "" + Int256Math.uintAdd(val, u(t[2]), u(t[3]), Integer.parseInt(t[4]), u(t[1]));
				case "USub": return "" + Int256Math.uintSubtract(val, u(t[2]), u(t[3]), Integer.parseInt(t[4]), u(t[1]));
				case "UShl1": return "" + Int256Math.uintShiftLeft1(val, u(t[2]), u(t[1]));
				case "UShr1": Int256Math.uintShiftRight1(val, u(t[2]), Integer.parseInt(t[3]), u(t[1])); return "0";
				case "UInv": { int tmp = temp(Int256Math.RECIPROCAL_TEMP_WORDS); Int256Math.reciprocal(val, u(t[2]), u(t[3]), u(t[1]), tmp); return "0"; }
				case "JUInv": { int tmp = temp(Int256Math.RECIPROCAL_TEMP_WORDS); return outcome(() -> { Int256Math.reciprocal(val, u(t[2]), u(t[3]), u(t[1]), tmp); return "\"ok\""; }, ""); }
				case "JUFromHex": return outcome(() -> { Int256Math.hexToUint(text(t[2]), val, u(t[1])); return "\"ok\""; }, "");
				case "JUFromBytes": return outcome(() -> { Int256Math.bytesToUint(unhex(t[2]), val, u(t[1])); return "\"ok\""; }, "");
				case "UReplace": Int256Math.replace(val, u(t[1]), u(t[2]), Integer.parseInt(t[3])); return "0";
				case "USwap": Int256Math.swap(val, u(t[1]), u(t[2]), Integer.parseInt(t[3])); return "0";
				case "UCompare": return relations(u(t[1]), u(t[2]));
				case "UToBytes": return q(hexOf(Int256Math.uintToBytes(val, u(t[1]))));
				case "UFromBytes": { byte[] b = unhex(t[2]); Int256Math.bytesToUint(b, val, u(t[1])); return Arrays.equals(b, unhex(t[2])) ? "0" : "99"; }
				case "UFromHex": Int256Math.hexToUint(new String(unhex(t[2]), StandardCharsets.ISO_8859_1), val, u(t[1])); return "0";
				case "UToHex": return chars(Int256Math.uintToHex(val, u(t[1])));
				
				/*---- Field ----*/
				case "FSet": setWords(val, f(t[1]), t[2]); return "0";
				case "FAddA": { int tmp = temp(Int256Math.FIELD_ADD_TEMP_WORDS); Int256Math.fieldAdd(val, f(t[2]), f(t[3]), f(t[1]), tmp); return "0"; }
				case "FSubA": { int tmp = temp(Int256Math.FIELD_SUBTRACT_TEMP_WORDS); Int256Math.fieldSubtract(val, f(t[2]), f(t[3]), f(t[1]), tmp); return "0"; }
				case "FDblA": { int tmp = temp(Int256Math.FIELD_MULTIPLY2_TEMP_WORDS); Int256Math.fieldMultiply2(val, f(t[2]), f(t[1]), tmp); return "0"; }
				case "FSqrA": { int tmp = temp(Int256Math.FIELD_SQUARE_TEMP_WORDS); Int256Math.fieldSquare(val, f(t[2]), f(t[1]), tmp); return "0"; }
				case "FMulA": { int tmp = temp(Int256Math.FIELD_MULTIPLY_TEMP_WORDS); Int256Math.fieldMultiply(val, f(t[2]), f(t[3]), f(t[1]), tmp); return "0"; }
				case "FReplace": Int256Math.replace(val, f(t[1]), f(t[2]), Integer.parseInt(t[3])); return "0";
				case "FCompare": return relations(f(t[1]), f(t[2]));
				
				/*---- Points ----*/
				case "PSet": for (int i = 0; i < 3; i++) setWords(val, p(t[1]) + i * W, t[2 + i]); return "0";
				case "PAdd": { int tmp = temp(CurvePointMath.ADD_TEMP_WORDS); CurvePointMath.add(val, p(t[1]), p(t[2]), tmp); return "0"; }
				case "PTwice": { int tmp = temp(CurvePointMath.TWICE_TEMP_WORDS); CurvePointMath.twice(val, p(t[1]), tmp); return "0"; }
				case "PMul": { int tmp = temp(CurvePointMath.MULTIPLY_TEMP_WORDS); CurvePointMath.multiply(val, p(t[1]), u(t[2]), tmp); return "0"; }
				case "PNormalize": { int tmp = temp(CurvePointMath.NORMALIZE_TEMP_WORDS); CurvePointMath.normalize(val, p(t[1]), tmp); return "0"; }
				case "PReplace": CurvePointMath.replace(val, p(t[1]), p(t[2]), Integer.parseInt(t[3])); return "0";
				case "PCopy": CurvePointMath.copy(val, p(t[2]), val, p(t[1])); return "0";
				case "POnCurve": { int tmp = temp(CurvePointMath.ISONCURVE_TEMP_WORDS); return "" + CurvePointMath.isOnCurve(val, p(t[1]), tmp); }
				case "PIsZero": return "" + CurvePointMath.isZero(val, p(t[1]));
				case "PBase": { int[] g = CurvePointMath.getBasePoint(); CurvePointMath.copy(g, 0, val, p(t[1])); Arrays.fill(g, 0x7777); return "0"; }
				
				/*---- ECDSA ----*/
				case "ESign": {
					int[] priv = arg("key", t[1]), nonce = arg("nonce", t[3]);
					boolean r = Ecdsa.sign(priv, hash(t[2]), nonce, outR, outS);
					return !wordsHex(priv, 0).equals(t[1]) || !wordsHex(nonce, 0).equals(t[3]) ? "99" : r ? "1" : "0";
				}
				case "ESignHmac": {
					int[] priv = arg("key", t[1]);
					boolean r = Ecdsa.signWithHmacNonce(priv, hash(t[2]), outR, outS);
					return !wordsHex(priv, 0).equals(t[1]) ? "99" : r ? "1" : "0";
				}
				case "EVerify": {
					int[] k = arg("point", t[1], t[2], t[3]), r = arg("r", t[5]), s = arg("s", t[6]);
					boolean ok = Ecdsa.verify(k, hash(t[4]), r, s);
					for (int i = 0; i < 3; i++)
						if (!wordsHex(k, i * W).equals(t[1 + i])) return "99";
					return !wordsHex(r, 0).equals(t[5]) || !wordsHex(s, 0).equals(t[6]) ? "99" : ok ? "1" : "0";
				}
				case "EVerifyOwn": {
					int[] m = new int[W + PW + CurvePointMath.MULTIPLY_TEMP_WORDS];
					setWords(m, 0, t[1]);
					CurvePointMath.copy(CurvePointMath.getBasePoint(), 0, m, W);
					CurvePointMath.multiply(m, W, 0, W + PW);
					CurvePointMath.normalize(m, W, W + PW);
					return Ecdsa.verify(Arrays.copyOfRange(m, W, W + PW), hash(t[2]), outR, outS) ? "1" : "0";
				}
				
				/*---- Hashes ----*/
				case "HashOf": {
					byte[] m = bytes("msg", t[2]), copy = m.clone(), r;
					switch (t[1]) {
						case "sha256": r = Sha256.getHash(m).toBytes(); break;
						case "sha256d": r = Sha256.getDoubleHash(m).toBytes(); break;
						case "sha512": r = Sha512.getHash(m); break;
						case "ripemd160": r = Ripemd160.getHash(m); break;
						case "keccak256": r = Keccak256.getHash(m); break;
						default: throw new AssertionError();
					}
					return Arrays.equals(m, copy) ? q(hexOf(r)) : q("input modified");
				}
				case "MacOf": {
					byte[] k = bytes("mackey", t[2]), m = bytes("msg", t[3]), ck = k.clone(), cm = m.clone();
					byte[] r = t[1].equals("sha256") ? Sha256.getHmac(k, m).toBytes() : Sha512.getHmac(k, m);
					return Arrays.equals(k, ck) && Arrays.equals(m, cm) ? q(hexOf(r)) : q("input modified");
				}
				case "HugeHash": {
					byte[] m = new byte[Integer.parseInt(t[2])];
					switch (t[1]) {
						case "sha256": return q(hexOf(Sha256.getHash(m).toBytes()));
						case "sha512": return q(hexOf(Sha512.getHash(m)));
						case "ripemd160": return q(hexOf(Ripemd160.getHash(m)));
						case "keccak256": return q(hexOf(Keccak256.getHash(m)));
						default: throw new AssertionError();
					}
				}
				
				/*---- Hash values ----*/
				case "DFromBytes": {
					byte[] b = unhex(t[2]);
					d[Integer.parseInt(t[1]) - 1] = hashValue(b);
					Arrays.fill(b, (byte)0x99);  // The object must have its own copy
					return "0";
				}
				case "DFromBadBytes": return outcome(() -> { new Sha256Hash(new byte[unhex(t[1]).length]); return "\"ok\""; }, "");
				case "DFromHex": return outcome(() -> { d[Integer.parseInt(t[1]) - 1] = new Sha256Hash(text(t[2])); return "\"ok\""; }, "");
				case "DToBytes": {
					byte[] b = d[Integer.parseInt(t[1]) - 1].toBytes();
					String r = q(hexOf(b));
					Arrays.fill(b, (byte)0x99);
					return r;
				}
				case "DToHex": return chars(d[Integer.parseInt(t[1]) - 1].toString());
				case "DEqual": {
					Sha256Hash a = d[Integer.parseInt(t[1]) - 1], b = d[Integer.parseInt(t[2]) - 1];
					return a.equals(null) || a.equals("x") || a.equals(b.toBytes()) ? "99" : "" + a.equals((Object)b);
				}
				case "DCompare": return "" + Integer.signum(d[Integer.parseInt(t[1]) - 1].compareTo(d[Integer.parseInt(t[2]) - 1]));
				case "DHashCodes": return "[\"" + d[Integer.parseInt(t[1]) - 1].hashCode() + "\",\"" + d[Integer.parseInt(t[2]) - 1].hashCode() + "\"]";
				
				/*---- Text codecs ----*/
				case "JB58Enc": {
					byte[] b = bytes("b58", t[1]);
					String r = Base58Check.bytesToBase58(b);
					return Arrays.equals(b, unhex(t[1])) ? chars(r) : "[0]";
				}
				case "JB58Dec": return outcome(() -> "{\"st\":\"ok\",\"data\":" + q(hexOf(Base58Check.base58ToBytes(text(t[1])))) + "}", ",\"data\":\"\"");
				case "B32Enc": {
					byte[] g = bytes("groups", t[2]);
					String r = outcome(() -> "{\"st\":\"ok\",\"text\":" + chars(Bech32.bitGroupsToBech32(text(t[1]), g)) + "}", ",\"text\":[]");
					return Arrays.equals(g, unhex(t[2])) ? r : "{\"st\":\"input modified\"}";
				}
				case "B32Dec": return outcome(() -> {
					Object[] r = Bech32.bech32ToBitGroups(text(t[1]));
					if (r.length != 2) throw new IllegalStateException();
					return "{\"st\":\"ok\",\"human\":" + chars((String)r[0]) + ",\"groups\":" + ints((byte[])r[1]) + "}";
				}, ",\"human\":[],\"groups\":[]");
				case "SegEnc": {
					byte[] g = bytes("groups", t[3]);
					String r = outcome(() -> "{\"st\":\"ok\",\"text\":" + chars(Bech32.segwitToBech32(text(t[1]), Integer.parseInt(t[2]), g)) + "}", ",\"text\":[]");
					return Arrays.equals(g, unhex(t[3])) ? r : "{\"st\":\"input modified\"}";
				}
				case "SegDec": return outcome(() -> {
					Object[] r = Bech32.bech32ToSegwit(text(t[1]));
					if (r.length != 3) throw new IllegalStateException();
					return "{\"st\":\"ok\",\"human\":" + chars((String)r[0]) + ",\"ver\":" + (Integer)r[1] + ",\"prog\":" + q(hexOf((byte[])r[2])) + "}";
				}, ",\"human\":[],\"ver\":0,\"prog\":\"\"");
				
				/*---- Constants; malformed arguments ----*/
				case "KConstsJava": {
					Arrays.fill(CurvePointMath.getBasePoint(), 0x5A5A5A5A);  // What one caller does to its array does not reach the next
					int[] g = CurvePointMath.getBasePoint();
					return "{\"g\":[" + q(wordsHex(g, 0)) + "," + q(wordsHex(g, W)) + "," + q(wordsHex(g, 2 * W)) + "],\"alphabet\":" + chars(Base58Check.ALPHABET) + ",\"sizes\":[" + Sha256Hash.HASH_LENGTH + "]}";
				}
				case "JRefuse": return refuse(t[1], unhex(t[2]));
				default: throw new IllegalStateException("unknown operation " + t[0]);
			}
		}
		
		/* Calls a function with arguments that are null (shape -1) or arrays of the given lengths. */
		String refuse(String fn, byte[] shapes) {
			int n = shapes.length;
			int[][] a = new int[n][], ca = new int[n][];
			byte[][] b = new byte[n][], cb = new byte[n][];
			String[] s = new String[n];
			Sha256Hash[] h = new Sha256Hash[n];
			for (int i = 0; i < n; i++) {
				if (shapes[i] < 0) continue;
				int len = shapes[i] & 0xFF;
				a[i] = new int[len];
				for (int j = 0; j < len; j++) a[i][j] = 3 + j + i;
				ca[i] = a[i].clone();
				b[i] = new byte[len];
				Arrays.fill(b[i], (byte)(7 + i));
				cb[i] = b[i].clone();
				s[i] = "a";
				h[i] = hashValue(new byte[32]);
			}
			String st = outcome(() -> {
				switch (fn) {
					case "sign": Ecdsa.sign(a[0], h[1], a[2], a[3], a[4]); break;
					case "signHmac": Ecdsa.signWithHmacNonce(a[0], h[1], a[2], a[3]); break;
					case "verify": Ecdsa.verify(a[0], h[1], a[2], a[3]); break;
					case "sha256": Sha256.getHash(b[0]); break;
					case "sha256d": Sha256.getDoubleHash(b[0]); break;
					case "sha512": Sha512.getHash(b[0]); break;
					case "ripemd160": Ripemd160.getHash(b[0]); break;
					case "keccak256": Keccak256.getHash(b[0]); break;
					case "hmac256": Sha256.getHmac(b[0], b[1]); break;
					case "hmac512": Sha512.getHmac(b[0], b[1]); break;
					case "hashBytes": new Sha256Hash(b[0]); break;
					case "hashText": new Sha256Hash(s[0]); break;
					case "hashCompare": hashValue(new byte[32]).compareTo(h[0]); break;
					case "b58enc": Base58Check.bytesToBase58(b[0]); break;
					case "b58dec": Base58Check.base58ToBytes(s[0]); break;
					case "b32enc": Bech32.bitGroupsToBech32(s[0], b[1]); break;
					case "b32dec": Bech32.bech32ToBitGroups(s[0]); break;
					case "segenc": Bech32.segwitToBech32(s[0], 0, b[1]); break;
					case "segdec": Bech32.bech32ToSegwit(s[0]); break;
					case "uHex": Int256Math.hexToUint(s[0], val, uOff); break;
					case "uBytes": Int256Math.bytesToUint(b[0], val, uOff); break;
					default: throw new AssertionError(fn);
				}
				return "\"ok\"";
			}, "");
			return "{\"st\":" + st + ",\"intact\":" + (Arrays.deepEquals(a, ca) && Arrays.deepEquals(b, cb)) + "}";
		}
	}
	
	interface Call { String get(); }
	
	/* The result of a call, or the class of the exception that it threw. */
	static String outcome(Call c, String rest) {
		try {
			return c.get();
		} catch (RuntimeException e) {
			String n = e.getClass().getSimpleName();
			return rest.isEmpty() ? q(n) : "{\"st\":" + q(n) + rest + "}";
		}
	}
	
	
	/*---- Main ----*/
	
	static final class Script {
		String id;
		int[] n = new int[6];
		List<String[]> ops = new ArrayList<>();
	}
	
	static void runScript(Script sc, PrintStream out, boolean immediate) {
		StringBuilder log = new StringBuilder();
		log.append("{\"T\":").append(q(sc.id)).append("}\n");
		String crash = null;
		try {
			Session s = new Session(sc.n);
			log.append("{\"i\":0").append(s.state()).append("}\n");
			for (String[] t : sc.ops) {
				if (immediate) {
					out.print(log);
					out.flush();
					log.setLength(0);
				}
				String r = s.run(t);
				log.append("{\"r\":").append(r).append(s.state()).append("}\n");
			}
		} catch (Throwable e) {
			crash = e.toString().replaceAll("[^A-Za-z0-9_.:$ -]", "?");
			StackTraceElement[] st = e.getStackTrace();
			if (st.length > 0)
				crash += " at " + st[0].toString().replaceAll("[^A-Za-z0-9_.:$()-]", "?");
		}
		log.append(crash == null ? "{\"E\":1}\n" : "{\"X\":" + q(crash) + "}\n");
		synchronized (out) {
			out.print(log);
			out.flush();
		}
	}
	
	public static void main(String[] args) throws Exception {
		List<Script> scripts = new ArrayList<>();
		for (String line : Files.readAllLines(Paths.get(args[0]), StandardCharsets.US_ASCII)) {
			if (line.isEmpty())
				continue;
			String[] t = line.trim().split(" +");
			if (t[0].equals("T")) {
				Script s = new Script();
				s.id = t[1];
				for (int i = 0; i < 6; i++)
					s.n[i] = Integer.parseInt(t[2 + i]);
				scripts.add(s);
			} else
				scripts.get(scripts.size() - 1).ops.add(t);
		}
		PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "US-ASCII");
		int threads = args.length > 1 ? Integer.parseInt(args[1]) : 0;
		if (threads == 0) {
			for (Script s : scripts)
				runScript(s, out, true);
		} else {
			shared = new java.util.concurrent.ConcurrentHashMap<>();
			AtomicInteger next = new AtomicInteger(), ready = new AtomicInteger();
			List<Thread> ts = new ArrayList<>();
			for (int k = 0; k < threads; k++) {
				Thread th = new Thread(() -> {
					ready.incrementAndGet();
					while (ready.get() < threads)
						Thread.yield();
					for (int i; (i = next.getAndIncrement()) < scripts.size(); )
						runScript(scripts.get(i), out, false);
				});
				th.start();
				ts.add(th);
			}
			for (Thread th : ts)
				th.join();
		}
		out.flush();
	}
	
}
