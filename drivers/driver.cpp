/* 
 * Replays scripts of public calls against the C++ library and logs, after every call, what the call returned
 * and the state of all the objects that a caller can see. spec/Trace.tla says which logs are acceptable.
 * 
 * Usage: driver SCRIPT [threads]
 */
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"
#include "Utils.hpp"
#ifdef PROBE_ASM
#include "AsmX8664.hpp"
#endif

using std::size_t;
using std::string;
using std::uint8_t;
using std::uint32_t;
using std::vector;
typedef vector<uint8_t> Bytes;


static string hexOf(const uint8_t *b, size_t n) {
	static const char *D = "0123456789abcdef";
	string s;
	s.reserve(2 * n);
	for (size_t i = 0; i < n; i++) {
		s += D[b[i] >> 4];
		s += D[b[i] & 15];
	}
	return s;
}

static Bytes unhex(const string &s) {
	Bytes r;
	if (s == "-")
		return r;
	r.reserve(s.size() / 2);
	for (size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
	return r;
}

static string q(const string &s) { return "\"" + s + "\""; }
static string qhex(const Bytes &b) { return q(hexOf(b.data(), b.size())); }
static string jbool(bool b) { return b ? "true" : "false"; }

// The words of a number, least significant first, as big-endian hexadecimal. Does not call the library.
static string wordsHex(const uint32_t *v) {
	uint8_t b[32];
	for (int i = 0; i < 32; i++)
		b[31 - i] = static_cast<uint8_t>(v[i >> 2] >> ((i & 3) * 8));
	return hexOf(b, 32);
}

static void setWords(uint32_t *v, const string &hex) {
	Bytes b = unhex(hex);
	if (b.size() != 32)
		throw std::runtime_error("32 bytes expected");
	for (int i = 0; i < 8; i++)
		v[i] = 0;
	for (int i = 0; i < 32; i++)
		v[i >> 2] |= static_cast<uint32_t>(b[31 - i]) << ((i & 3) * 8);
}

static string charsJson(const char *s) {
	string r = "[";
	for (size_t i = 0; s[i] != '\0'; i++)
		r += (i ? "," : "") + std::to_string(static_cast<int>(static_cast<uint8_t>(s[i])));
	return r + "]";
}

// A heap copy that ends exactly where its block ends, so that a sanitizer notices accesses outside of it. Successive copies have different alignments.
template <typename T> struct Exact {
	std::unique_ptr<T[]> p;
	size_t off;
	explicit Exact(const Bytes &b, bool nul=false) {
		static thread_local unsigned int turn = 0;
		turn++;
		off = (turn & 3) == 0 ? 0 : turn % 13;
		size_t n = off + b.size() + (nul ? 1 : 0);
		p.reset(new T[n]);
		std::memset(p.get(), 0x5C, off);
		for (size_t i = 0; i < b.size(); i++)
			p[off + i] = static_cast<T>(b[i]);
		if (nul)
			p[n - 1] = 0;
	}
	T *get() { return p.get() + off; }
	// An empty message may be a null pointer
	const T *msg(const Bytes &b) { return b.empty() && off % 2 == 1 ? nullptr : get(); }
};


struct Hasher {
	std::unique_ptr<Sha256> a;
	std::unique_ptr<Sha512> b;
};


struct Session {
	static constexpr size_t GUARD = 64;
	void *raw = nullptr;
	uint8_t *lo = nullptr, *hi = nullptr;
	Uint256 *u = nullptr;
	FieldInt *f = nullptr;
	CurvePoint *p = nullptr;
	int nu, nf, np, nd, nw;
	vector<Sha256Hash> d;
	vector<ExtendedPrivateKey> w;
	vector<Hasher> h;
	// Output parameters
	Uint256 outR, outS, outKey;
	uint8_t outHash[20];
	uint8_t outVersion = 0xA5;
	bool outCompressed = false;
	int compressedSet = 0;
	
	Session(int nu_, int nf_, int np_, int nd_, int nw_, int align) :
			nu(nu_), nf(nf_), np(np_), nd(nd_), nw(nw_), h(4) {
		size_t size = 2 * GUARD + 64 + sizeof(Uint256) * static_cast<size_t>(nu) + sizeof(FieldInt) * static_cast<size_t>(nf) + sizeof(CurvePoint) * static_cast<size_t>(np);
		if (posix_memalign(&raw, 64, size) != 0)
			abort();
		std::memset(raw, 0xC3, size);
		lo = static_cast<uint8_t*>(raw);
		uint8_t *m = lo + GUARD + 4 * static_cast<size_t>(align);
		u = reinterpret_cast<Uint256*>(m);
		for (int i = 0; i < nu; i++)
			new (&u[i]) Uint256(Uint256::ZERO);
		m += sizeof(Uint256) * static_cast<size_t>(nu);
		f = reinterpret_cast<FieldInt*>(m);
		for (int i = 0; i < nf; i++)
			new (&f[i]) FieldInt(CurvePoint::FI_ZERO);
		m += sizeof(FieldInt) * static_cast<size_t>(nf);
		p = reinterpret_cast<CurvePoint*>(m);
		for (int i = 0; i < np; i++)
			new (&p[i]) CurvePoint(CurvePoint::ZERO);
		m += sizeof(CurvePoint) * static_cast<size_t>(np);
		hi = m;
		const uint8_t z[32] = {};
		for (int i = 0; i < nd; i++)
			d.push_back(Sha256Hash(z, 32));
		for (int i = 0; i < nw; i++)
			w.push_back(ExtendedPrivateKey());
		setWords(outR.value, string(64, 'a'));
		setWords(outS.value, string(64, 'b'));
		setWords(outKey.value, string(64, 'c'));
		std::memset(outHash, 0xDD, sizeof(outHash));
	}
	
	~Session() { free(raw); }
	
	bool guardsIntact() const {
		for (const uint8_t *g = lo; g < reinterpret_cast<uint8_t*>(u); g++)
			if (*g != 0xC3) return false;
		for (size_t i = 0; i < GUARD; i++)
			if (hi[i] != 0xC3) return false;
		return true;
	}
	
	string point(const CurvePoint &t) const {
		return "[" + q(wordsHex(t.x.value)) + "," + q(wordsHex(t.y.value)) + "," + q(wordsHex(t.z.value)) + "]";
	}
	
	// The state that the caller can see, as members of a JSON object.
	string state() const {
		string s;
		if (nu > 0) {
			s += ",\"U\":[";
			for (int i = 0; i < nu; i++) s += (i ? "," : "") + q(wordsHex(u[i].value));
			s += "]";
		}
		if (nf > 0) {
			s += ",\"F\":[";
			for (int i = 0; i < nf; i++) s += (i ? "," : "") + q(wordsHex(f[i].value));
			s += "]";
		}
		if (np > 0) {
			s += ",\"P\":[";
			for (int i = 0; i < np; i++) s += (i ? "," : "") + point(p[i]);
			s += "]";
		}
		if (nd > 0) {
			s += ",\"D\":[";
			for (int i = 0; i < nd; i++) s += (i ? "," : "") + q(hexOf(d[static_cast<size_t>(i)].value, 32));
			s += "]";
		}
		if (nw > 0) {
			s += ",\"W\":[";
			for (int i = 0; i < nw; i++) {
				const ExtendedPrivateKey &k = w[static_cast<size_t>(i)];
				uint8_t idx[4] = {static_cast<uint8_t>(k.index >> 24), static_cast<uint8_t>(k.index >> 16), static_cast<uint8_t>(k.index >> 8), static_cast<uint8_t>(k.index)};
				s += string(i ? "," : "") + "{\"key\":" + q(wordsHex(k.privateKey.value)) + ",\"chain\":" + q(hexOf(k.chainCode, 32)) + ",\"depth\":" + std::to_string(k.depth)
					+ ",\"index\":" + q(hexOf(idx, 4)) + ",\"parent\":" + q(hexOf(k.parentPubkeyHash, 4)) + ",\"pub\":" + point(k.publicKey) + "}";
			}
			s += "]";
		}
		s += ",\"O\":{\"r\":" + q(wordsHex(outR.value)) + ",\"s\":" + q(wordsHex(outS.value)) + ",\"key\":" + q(wordsHex(outKey.value)) + ",\"hash\":" + q(hexOf(outHash, 20))
			+ ",\"version\":" + std::to_string(outVersion) + ",\"compressed\":" + std::to_string(outCompressed ? 1 : 0) + "}";
		s += ",\"guard\":" + jbool(guardsIntact());
		return s;
	}
	
	template <typename T> static string relations(const T &a, const T &b) {
		return "[" + jbool(a == b) + "," + jbool(a != b) + "," + jbool(a < b) + "," + jbool(a <= b) + "," + jbool(a > b) + "," + jbool(a >= b) + "]";
	}
	
	string run(const vector<string> &t);
};


static int num(const string &s) { return std::stoi(s); }

#ifdef PROBE_ASM
/*---- Direct calls of the assembly routines ----*/

/* Calls function rdi with the three arguments at rsi, after giving the registers that it must preserve known values, and those that it may
 * use other ones; stores at rdx: rax, the six preserved registers, flags, the control words. */
asm(R"(
.text
.p2align 4
probe_call:
	pushq %rbx
	pushq %rbp
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	pushq %rdx
	subq $64, %rsp
	movq %rdi, %rax
	movq %rsi, %r10
	movabsq $0x1C0FFEE1DEADBEEF, %rbx
	movq %rbx, 0(%rsp)
	movq %rbx, 8(%rsp)
	movq %rbx, 16(%rsp)
	movq %rbx, 24(%rsp)
	movq %rbx, 32(%rsp)
	movq %rbx, 40(%rsp)
	movq %rbx, 48(%rsp)
	movq %rbx, 56(%rsp)
	leaq 1(%rbx), %rbp
	leaq 2(%rbx), %r12
	leaq 3(%rbx), %r13
	leaq 4(%rbx), %r14
	leaq 5(%rbx), %r15
	movq 0(%r10), %rdi
	movq 8(%r10), %rsi
	movq 16(%r10), %rdx
	movabsq $0x8BADF00D8BADF00D, %rcx
	movq %rcx, %r8
	movq %rcx, %r9
	movq %rcx, %r10
	movq %rcx, %r11
	movq %rcx, %xmm0
	movq %rcx, %xmm1
	movq %rcx, %xmm5
	movq %rcx, %xmm15
	stc
	call *%rax
	movq 64(%rsp), %r10
	movq %rax, 0(%r10)
	movq %rbx, 8(%r10)
	movq %rbp, 16(%r10)
	movq %r12, 24(%r10)
	movq %r13, 32(%r10)
	movq %r14, 40(%r10)
	movq %r15, 48(%r10)
	pushfq
	popq 56(%r10)
	cld
	stmxcsr 64(%r10)
	fnstcw 68(%r10)
	fnstsw 70(%r10)
	movq 0(%rsp), %rax
	andq 8(%rsp), %rax
	andq 16(%rsp), %rax
	andq 24(%rsp), %rax
	andq 32(%rsp), %rax
	andq 40(%rsp), %rax
	andq 48(%rsp), %rax
	andq 56(%rsp), %rax
	movq %rax, 72(%r10)
	addq $72, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbp
	popq %rbx
	ret
)");
extern "C" void probe_call(const void *fn, const uint64_t args[3], uint64_t out[10]);

/* n words that end (or begin) where the memory does. */
class Fenced {
	uint8_t *map;
	size_t n, room;
	public: uint8_t *at;
	public: Fenced(size_t bytes, bool atEnd, size_t gap) : n(bytes), room(4096) {
		map = static_cast<uint8_t*>(mmap(nullptr, 3 * room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (map == MAP_FAILED || mprotect(map + room, room, PROT_READ | PROT_WRITE) != 0) abort();
		std::memset(map + room, 0xE9, room);
		at = map + room + (atEnd ? room - bytes - gap : gap);
	}
	public: bool intact() const {
		for (size_t i = 0; i < room; i++)
			if (!(map + room + i >= at && map + room + i < at + n) && map[room + i] != 0xE9) return false;
		return true;
	}
	public: ~Fenced() { munmap(map, 3 * room); }
	Fenced(const Fenced&) = delete;
	
	// Little-endian words from big-endian hexadecimal, and back
	public: void set(const string &hex) {
		Bytes b = unhex(hex);
		for (size_t i = 0; i < n; i++) at[i] = b[n - 1 - i];
	}
	public: string hex() const {
		Bytes b(at, at + n);
		std::reverse(b.begin(), b.end());
		return hexOf(b.data(), n);
	}
};

static string asmCall(const string &fn, const string &x, const string &y, int mode) {
	// mode: enable bit, then position and alignment
	uint64_t en = static_cast<uint64_t>(mode & 1);
	bool atEnd = (mode & 2) != 0;
	size_t gap = static_cast<size_t>(mode >> 2 & 3) * 4;
	struct Routine { const char *name; const void *code; size_t destLen, xLen, yLen; bool inPlace; int result; };  // Lengths in bytes; result: 0 none, 1 32 bits, 2 bool
	static const Routine ROUTINES[] = {
		{"add", reinterpret_cast<const void*>(&asm_Uint256_add), 32, 32, 32, true, 1},
		{"subtract", reinterpret_cast<const void*>(&asm_Uint256_subtract), 32, 32, 32, true, 1},
		{"shiftLeft1", reinterpret_cast<const void*>(&asm_Uint256_shiftLeft1), 32, 32, 0, true, 1},
		{"shiftRight1", reinterpret_cast<const void*>(&asm_Uint256_shiftRight1), 32, 32, 0, true, 0},
		{"replace", reinterpret_cast<const void*>(&asm_Uint256_replace), 32, 32, 32, true, 0},
		{"swap", reinterpret_cast<const void*>(&asm_Uint256_swap), 32, 32, 32, true, 0},
		{"equalTo", reinterpret_cast<const void*>(&asm_Uint256_equalTo), 32, 32, 32, true, 2},
		{"lessThan", reinterpret_cast<const void*>(&asm_Uint256_lessThan), 32, 32, 32, true, 2},
		{"multiply", reinterpret_cast<const void*>(&asm_FieldInt_multiply256x256eq512), 64, 32, 32, false, 0},
		{"step0", reinterpret_cast<const void*>(&asm_FieldInt_multiplyBarrettStep0), 96, 64, 0, false, 0},
		{"step1", reinterpret_cast<const void*>(&asm_FieldInt_multiplyBarrettStep1), 64, 32, 0, false, 0},
		{"step2", reinterpret_cast<const void*>(&asm_FieldInt_multiplyBarrettStep2), 36, 64, 64, false, 0},
	};
	for (const Routine &r : ROUTINES) {
		if (fn != r.name) continue;
		Fenced dest(r.destLen, atEnd, gap), ex(r.xLen, atEnd, gap), ey(r.yLen, atEnd, gap);
		ex.set(x);
		if (r.yLen > 0) ey.set(y);
		if (r.inPlace) dest.set(x); else std::memset(dest.at, 0x3C, r.destLen);
		uint64_t junk = UINT64_C(0xD00DFEED00000000);
		auto ptr = [](const Fenced &e) { return reinterpret_cast<uint64_t>(e.at); };
		uint64_t args[3] = {ptr(dest), ptr(ey), en | junk};
		if (fn == "shiftRight1") args[1] = en | junk;
		bool same = !r.inPlace && r.yLen > 0 && x == y;
		if (!r.inPlace) { args[1] = ptr(ex); args[2] = same ? ptr(ex) : ptr(ey); }
		uint64_t out[10];
		probe_call(r.code, args, out);
		bool abi = dest.intact() && ex.intact() && ey.intact() && ex.hex() == x;
		for (int i = 0; i < 6; i++)
			abi = abi && out[1 + i] == UINT64_C(0x1C0FFEE1DEADBEEF) + static_cast<uint64_t>(i);
		abi = abi && (out[7] & 0x400) == 0 && out[9] == UINT64_C(0x1C0FFEE1DEADBEEF);
		uint32_t mx, cw;
		std::memcpy(&mx, &out[8], 4);
		std::memcpy(&cw, reinterpret_cast<uint8_t*>(&out[8]) + 4, 4);
		abi = abi && (mx & 0xFFC0) == 0x1F80 && (cw & 0xFFFF) == 0x037F;
		uint64_t res = r.result == 0 ? 0 : r.result == 1 ? out[0] & 0xFFFFFFFF : out[0] & 0xFF;
		return "{\"ret\":" + std::to_string(res > 1 ? 2 : static_cast<int>(res)) + ",\"z\":" + q(dest.hex()) + ",\"y\":" + q(r.yLen > 0 ? ey.hex() : "") + ",\"abi\":" + jbool(abi) + "}";
	}
	throw std::runtime_error("unknown routine");
}
#endif


// Calls whose 32-bit enable argument arrives in a register with arbitrary upper bits, as the calling convention allows.
#define NOINLINE __attribute__((noinline))
static const uint64_t JUNK = UINT64_C(0xD00DFEED00000000);
NOINLINE static uint32_t enAdd(Uint256 &a, const Uint256 &b, uint64_t e) { return a.add(b, static_cast<uint32_t>(e)); }
NOINLINE static uint32_t enSubtract(Uint256 &a, const Uint256 &b, uint64_t e) { return a.subtract(b, static_cast<uint32_t>(e)); }
NOINLINE static void enShift(Uint256 &a, uint64_t e) { a.shiftRight1(static_cast<uint32_t>(e)); }
NOINLINE static void enReplace(Uint256 &a, const Uint256 &b, uint64_t e) { a.replace(b, static_cast<uint32_t>(e)); }
NOINLINE static void enSwap(Uint256 &a, Uint256 &b, uint64_t e) { a.swap(b, static_cast<uint32_t>(e)); }
NOINLINE static void enReplaceF(FieldInt &a, const FieldInt &b, uint64_t e) { a.replace(b, static_cast<uint32_t>(e)); }
NOINLINE static void enReplaceP(CurvePoint &a, const CurvePoint &b, uint64_t e) { a.replace(b, static_cast<uint32_t>(e)); }


string Session::run(const vector<string> &t) {
	const string &op = t[0];
	#define I(k) (num(t[k]) - 1)
	#define B(k) unhex(t[k])
	#define EN(k) (JUNK | std::stoul(t[k]))
	
	/*---- Uint256 ----*/
	if (op == "USet") { setWords(u[I(1)].value, t[2]); return "0"; }
	if (op == "UCopy") { u[I(1)] = u[I(2)]; return "0"; }
	if (op == "UAdd") return t[4] == "1" && t.size() > 5 ? std::to_string(u[I(1)].add(u[I(3)])) : std::to_string(enAdd(u[I(1)], u[I(3)], EN(4)));
	if (op == "USub") return t[4] == "1" && t.size() > 5 ? std::to_string(u[I(1)].subtract(u[I(3)])) : std::to_string(enSubtract(u[I(1)], u[I(3)], EN(4)));
	if (op == "UShl1") return std::to_string(u[I(1)].shiftLeft1());
	if (op == "UShr1") { if (t[3] == "1" && t.size() > 4) u[I(1)].shiftRight1(); else enShift(u[I(1)], EN(3)); return "0"; }
	if (op == "UInv") { u[I(1)].reciprocal(u[I(3)]); return "0"; }
	if (op == "UReplace") { enReplace(u[I(1)], u[I(2)], EN(3)); return "0"; }
	if (op == "USwap") { enSwap(u[I(1)], u[I(2)], EN(3)); return "0"; }
	if (op == "UCompare") return relations(u[I(1)], u[I(2)]);
	if (op == "UToBytes") { Exact<uint8_t> b(Bytes(32, 0x5A)); u[I(1)].getBigEndianBytes(b.get()); return q(hexOf(b.get(), 32)); }
	if (op == "UFromBytes") { Exact<uint8_t> b(B(2)); u[I(1)] = Uint256(b.get()); return "0"; }
	if (op == "UFromHex") { Exact<char> b(B(2), true); u[I(1)] = Uint256(b.get()); return "0"; }
	if (op == "UFromF") { u[I(1)] = Uint256(f[I(2)]); return "0"; }
	
	/*---- FieldInt ----*/
	if (op == "FSet") { setWords(f[I(1)].value, t[2]); return "0"; }
	if (op == "FFromU") { f[I(1)] = FieldInt(u[I(2)]); return "0"; }
	if (op == "FFromHex") { Exact<char> b(B(2), true); f[I(1)] = FieldInt(b.get()); return "0"; }
	if (op == "FAddA") { f[I(1)].add(f[I(3)]); return "0"; }
	if (op == "FSubA") { f[I(1)].subtract(f[I(3)]); return "0"; }
	if (op == "FDblA") { f[I(1)].multiply2(); return "0"; }
	if (op == "FSqrA") { f[I(1)].square(); return "0"; }
	if (op == "FMulA") { f[I(1)].multiply(f[I(3)]); return "0"; }
	if (op == "FInvA") { f[I(1)].reciprocal(); return "0"; }
	if (op == "FReplace") { enReplaceF(f[I(1)], f[I(2)], EN(3)); return "0"; }
	if (op == "FCompare") return relations(f[I(1)], f[I(2)]);
	if (op == "FToBytes") { Exact<uint8_t> b(Bytes(32, 0x5A)); f[I(1)].getBigEndianBytes(b.get()); return q(hexOf(b.get(), 32)); }
	
	/*---- CurvePoint ----*/
	if (op == "PSet") { CurvePoint &c = p[I(1)]; setWords(c.x.value, t[2]); setWords(c.y.value, t[3]); setWords(c.z.value, t[4]); return "0"; }
	if (op == "PAdd") { p[I(1)].add(p[I(2)]); return "0"; }
	if (op == "PTwice") { p[I(1)].twice(); return "0"; }
	if (op == "PMul") { p[I(1)].multiply(u[I(2)]); return "0"; }
	if (op == "PNormalize") { p[I(1)].normalize(); return "0"; }
	if (op == "PReplace") { enReplaceP(p[I(1)], p[I(2)], EN(3)); return "0"; }
	if (op == "POnCurve") return std::to_string(static_cast<int>(p[I(1)].isOnCurve()));
	if (op == "PIsZero") return std::to_string(static_cast<int>(p[I(1)].isZero()));
	if (op == "PEqual") return "[" + jbool(p[I(1)] == p[I(2)]) + "," + jbool(p[I(1)] != p[I(2)]) + "]";
	if (op == "PCompress") { Exact<uint8_t> b(Bytes(33, 0x5A)); p[I(1)].toCompressedPoint(b.get()); return q(hexOf(b.get(), 33)); }
	if (op == "PPublic") { p[I(1)] = CurvePoint::privateExponentToPublicPoint(u[I(2)]); return "0"; }
	if (op == "PBase") { p[I(1)] = CurvePoint::G; return "0"; }
	if (op == "PZero") { p[I(1)] = CurvePoint::ZERO; return "0"; }
	if (op == "PFromHex") { Exact<char> x(B(2), true), y(B(3), true); p[I(1)] = CurvePoint(x.get(), y.get()); return "0"; }
	if (op == "PFromXY") { p[I(1)] = CurvePoint(f[I(2)], f[I(3)]); return "0"; }
	
	/*---- ECDSA ----*/
	if (op == "ESign") {
		Uint256 priv, nonce;
		setWords(priv.value, t[1]); setWords(nonce.value, t[3]);
		Exact<uint8_t> hb(B(2));
		bool r = Ecdsa::sign(priv, Sha256Hash(hb.get(), 32), nonce, outR, outS);
		if (wordsHex(priv.value) != t[1] || wordsHex(nonce.value) != t[3]) return "99";  // Modified its inputs
		return std::to_string(static_cast<int>(r));
	}
	if (op == "ESignHmac") {
		Uint256 priv;
		setWords(priv.value, t[1]);
		Exact<uint8_t> hb(B(2));
		bool r = Ecdsa::signWithHmacNonce(priv, Sha256Hash(hb.get(), 32), outR, outS);
		if (wordsHex(priv.value) != t[1]) return "99";
		return std::to_string(static_cast<int>(r));
	}
	if (op == "EVerify") {
		CurvePoint k(CurvePoint::ZERO);
		setWords(k.x.value, t[1]); setWords(k.y.value, t[2]); setWords(k.z.value, t[3]);
		Uint256 r, s;
		setWords(r.value, t[5]); setWords(s.value, t[6]);
		Exact<uint8_t> hb(B(4));
		bool ok = Ecdsa::verify(k, Sha256Hash(hb.get(), 32), r, s);
		if (wordsHex(k.x.value) != t[1] || wordsHex(k.y.value) != t[2] || wordsHex(k.z.value) != t[3] || wordsHex(r.value) != t[5] || wordsHex(s.value) != t[6]) return "99";
		return std::to_string(static_cast<int>(ok));
	}
	if (op == "EVerifyOwn") {
		Uint256 priv;
		setWords(priv.value, t[1]);
		Exact<uint8_t> hb(B(2));
		return std::to_string(static_cast<int>(Ecdsa::verify(CurvePoint::privateExponentToPublicPoint(priv), Sha256Hash(hb.get(), 32), outR, outS)));
	}
	
	/*---- Hash functions ----*/
	if (op == "HashOf") {
		Bytes m = B(2);
		Exact<uint8_t> e(m);
		Bytes r(t[1] == "sha512" ? 64 : t[1] == "ripemd160" ? 20 : 32);
		Exact<uint8_t> o(r);
		if (t[1] == "sha256") { Sha256Hash x = Sha256::getHash(e.msg(m), m.size()); return q(hexOf(x.value, 32)); }
		else if (t[1] == "sha256d") { Sha256Hash x = Sha256::getDoubleHash(e.msg(m), m.size()); return q(hexOf(x.value, 32)); }
		else if (t[1] == "sha512") Sha512::getHash(e.msg(m), m.size(), o.get());
		else if (t[1] == "ripemd160") Ripemd160::getHash(e.msg(m), m.size(), o.get());
		else if (t[1] == "keccak256") Keccak256::getHash(e.msg(m), m.size(), o.get());
		else abort();
		if (!std::equal(m.begin(), m.end(), e.get())) return "\"input modified\"";
		return q(hexOf(o.get(), r.size()));
	}
	if (op == "MacOf") {
		Bytes k = B(2), m = B(3);
		Exact<uint8_t> ek(k), em(m);
		if (t[1] == "sha256") { Sha256Hash x = Sha256::getHmac(ek.msg(k), k.size(), em.msg(m), m.size()); return q(hexOf(x.value, 32)); }
		Exact<uint8_t> o(Bytes(64, 0));
		Sha512::getHmac(ek.msg(k), k.size(), em.msg(m), m.size(), o.get());
		return q(hexOf(o.get(), 64));
	}
	if (op == "Compress256") {
		uint32_t st[8];
		Bytes s = B(1), b = B(2);
		for (int i = 0; i < 8; i++)
			st[i] = static_cast<uint32_t>(s[4*i]) << 24 | static_cast<uint32_t>(s[4*i+1]) << 16 | static_cast<uint32_t>(s[4*i+2]) << 8 | s[4*i+3];
		Exact<uint8_t> e(b);
		Sha256::compress(st, e.get());
		uint8_t o[32];
		for (int i = 0; i < 32; i++)
			o[i] = static_cast<uint8_t>(st[i >> 2] >> (24 - 8 * (i & 3)));
		return q(hexOf(o, 32));
	}
	if (op == "HNew") {
		Hasher &k = h[I(1)];
		k.a.reset(); k.b.reset();
		if (t[2] == "sha256") k.a.reset(new Sha256()); else k.b.reset(new Sha512());
		return "0";
	}
	if (op == "HAppend") {
		Hasher &k = h[I(1)];
		Bytes m = B(2);
		Exact<uint8_t> e(m);
		bool same = k.a ? &k.a->append(e.msg(m), m.size()) == k.a.get() : &k.b->append(e.msg(m), m.size()) == k.b.get();
		if (!std::equal(m.begin(), m.end(), e.get())) return "97";
		return same ? "0" : "98";
	}
	if (op == "HCopy") {
		Hasher &k = h[I(1)], &j = h[I(2)];
		if (k.a && j.a) { *k.a = *j.a; return "0"; }
		if (k.b && j.b) { *k.b = *j.b; return "0"; }
		std::unique_ptr<Sha256> a(j.a ? new Sha256(*j.a) : nullptr);
		std::unique_ptr<Sha512> b(j.b ? new Sha512(*j.b) : nullptr);
		k.a = std::move(a);
		k.b = std::move(b);
		return "0";
	}
	if (op == "HFinish") {
		Hasher &k = h[I(1)];
		string r;
		if (k.a) { Sha256Hash x = k.a->getHash(); r = hexOf(x.value, 32); }
		else { Exact<uint8_t> o(Bytes(64, 0)); k.b->getHash(o.get()); r = hexOf(o.get(), 64); }
		k.a.reset(); k.b.reset();
		return q(r);
	}
	if (op == "HugeHash") {  // A message of the given number of zero bytes; the memory is never written, so it is all one zero page
		size_t n = std::stoull(t[2]);
		void *m = mmap(nullptr, n + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) throw std::runtime_error("mmap");
		const uint8_t *e = static_cast<const uint8_t*>(m);
		uint8_t o[64];
		string r;
		if (t[1] == "sha256") { Sha256Hash x = Sha256::getHash(e, n); r = hexOf(x.value, 32); }
		else if (t[1] == "sha256stream") {
			Sha256 s;
			size_t chunk = (size_t(1) << 24) + 64;
			for (size_t i = 0; i < n; i += chunk) s.append(e, n - i < chunk ? n - i : chunk);
			Sha256Hash x = s.getHash();
			r = hexOf(x.value, 32);
		} else if (t[1] == "sha512") { Sha512::getHash(e, n, o); r = hexOf(o, 64); }
		else if (t[1] == "sha512stream") {
			Sha512 s;
			size_t chunk = (size_t(1) << 24) + 128;
			for (size_t i = 0; i < n; i += chunk) s.append(e, n - i < chunk ? n - i : chunk);
			s.getHash(o);
			r = hexOf(o, 64);
		} else if (t[1] == "ripemd160") { Ripemd160::getHash(e, n, o); r = hexOf(o, 20); }
		else if (t[1] == "keccak256") { Keccak256::getHash(e, n, o); r = hexOf(o, 32); }
		else abort();
		munmap(m, n + 4096);
		return q(r);
	}
	
	/*---- Sha256Hash ----*/
	if (op == "DFromBytes") { Exact<uint8_t> e(B(2)); d[I(1)] = Sha256Hash(e.get(), 32); return "0"; }
	if (op == "DFromHex") { Exact<char> e(B(2), true); d[I(1)] = Sha256Hash(e.get()); return "\"ok\""; }
	if (op == "DEqual") { bool a = d[I(1)] == d[I(2)], b = d[I(1)] != d[I(2)]; return a == b ? "99" : jbool(a); }
	
	/*---- Base58Check ----*/
	if (op == "AddrEnc" || op == "WifEnc" || op == "XprvEnc") {
		size_t n = op == "AddrEnc" ? 36 : op == "WifEnc" ? 53 : 112;
		std::unique_ptr<char[]> buf(new char[n]);
		std::memset(buf.get(), 0x7E, n);
		if (op == "AddrEnc") {
			Exact<uint8_t> e(B(2));
			Base58Check::pubkeyHashToBase58Check(e.get(), static_cast<uint8_t>(num(t[1])), buf.get());
		} else if (op == "WifEnc") {
			Uint256 k;
			setWords(k.value, t[2]);
			Base58Check::privateKeyToBase58Check(k, static_cast<uint8_t>(num(t[1])), num(t[3]) == 1, buf.get());
		} else
			Base58Check::extendedPrivateKeyToBase58Check(w[I(1)], buf.get());
		if (std::memchr(buf.get(), 0, n) == nullptr) return "[0]";  // Not terminated
		return charsJson(buf.get());
	}
	if (op == "AddrDec") {
		Exact<char> e(B(1), true);
		return std::to_string(static_cast<int>(Base58Check::pubkeyHashFromBase58Check(e.get(), outHash, t[2] == "1" ? &outVersion : nullptr)));
	}
	if (op == "WifDec") {
		Exact<char> e(B(1), true);
		return std::to_string(static_cast<int>(Base58Check::privateKeyFromBase58Check(e.get(), outKey, t[2] == "1" ? &outVersion : nullptr, t[3] == "1" ? &outCompressed : nullptr)));
	}
	if (op == "OutPreset") {  // Puts given values into the output parameters
		outVersion = static_cast<uint8_t>(num(t[1]));
		outCompressed = num(t[2]) == 1;
		return "0";
	}
	
	/*---- Wallets ----*/
	if (op == "WBlank") { w[I(1)] = ExtendedPrivateKey(); return "0"; }
	if (op == "WNew") {
		Uint256 k;
		setWords(k.value, t[2]);
		Bytes ch = B(3), idx = B(5), par = B(6);
		Exact<uint8_t> ec(ch), ep(par);
		w[I(1)] = ExtendedPrivateKey(k, ec.get(), static_cast<uint8_t>(num(t[4])), static_cast<uint32_t>(idx[0]) << 24 | static_cast<uint32_t>(idx[1]) << 16 | static_cast<uint32_t>(idx[2]) << 8 | idx[3], ep.get());
		return "0";
	}
	if (op == "WChild") {
		Bytes idx = B(3);
		w[I(1)] = w[I(2)].getChildKey(static_cast<uint32_t>(idx[0]) << 24 | static_cast<uint32_t>(idx[1]) << 16 | static_cast<uint32_t>(idx[2]) << 8 | idx[3]);
		return "0";
	}
	if (op == "XprvDec") {
		Exact<char> e(B(2), true);
		return std::to_string(static_cast<int>(Base58Check::extendedPrivateKeyFromBase58Check(e.get(), w[I(1)])));
	}
	
	/*---- Constants and helpers ----*/
	if (op == "KConsts") {
		uint8_t hd[4] = {static_cast<uint8_t>(ExtendedPrivateKey::HARDEN >> 24), static_cast<uint8_t>(ExtendedPrivateKey::HARDEN >> 16), static_cast<uint8_t>(ExtendedPrivateKey::HARDEN >> 8), static_cast<uint8_t>(ExtendedPrivateKey::HARDEN)};
		return "{\"zero\":" + q(wordsHex(Uint256::ZERO.value)) + ",\"one\":" + q(wordsHex(Uint256::ONE.value))
			+ ",\"fizero\":" + q(wordsHex(CurvePoint::FI_ZERO.value)) + ",\"fione\":" + q(wordsHex(CurvePoint::FI_ONE.value))
			+ ",\"a\":" + q(wordsHex(CurvePoint::A.value)) + ",\"b\":" + q(wordsHex(CurvePoint::B.value)) + ",\"order\":" + q(wordsHex(CurvePoint::ORDER.value))
			+ ",\"g\":" + point(CurvePoint::G) + ",\"identity\":" + point(CurvePoint::ZERO) + ",\"harden\":" + q(hexOf(hd, 4))
			+ ",\"alphabet\":" + charsJson(Base58Check::ALPHABET) + ",\"digits\":" + charsJson(Utils::HEX_DIGITS)
			+ ",\"sizes\":[" + std::to_string(+Uint256::NUM_WORDS) + "," + std::to_string(+FieldInt::NUM_WORDS) + "," + std::to_string(+Sha256Hash::HASH_LEN) + "," + std::to_string(+Sha256::BLOCK_LEN)
			+ "," + std::to_string(+Sha512::HASH_LEN) + "," + std::to_string(+Ripemd160::HASH_LEN) + "," + std::to_string(+Keccak256::HASH_LEN) + "]}";
	}
	if (op == "KHexDigit") return std::to_string(Utils::parseHexDigit(num(t[1])));
	if (op == "KCopy") {
		Exact<uint8_t> e(B(1));
		size_t n = static_cast<size_t>(num(t[4]));
		if (B(1).empty()) Utils::copyBytes(nullptr, nullptr, n);
		else Utils::copyBytes(e.get() + num(t[2]), e.get() + num(t[3]), n);
		return q(hexOf(e.get(), B(1).size()));
	}
	if (op == "KStore") {
		Bytes x = B(1);
		Exact<uint8_t> e(Bytes(4, 0x5C));
		Utils::storeBigUint32(static_cast<uint32_t>(x[0]) << 24 | static_cast<uint32_t>(x[1]) << 16 | static_cast<uint32_t>(x[2]) << 8 | x[3], e.get());
		return q(hexOf(e.get(), 4));
	}
#ifdef PROBE_ASM
	if (op == "AsmCall") return asmCall(t[1], t[2], t[3], num(t[4]));
#endif
	throw std::runtime_error("unknown operation " + op);
}


struct Script {
	string id;
	int n[6];
	vector<vector<string>> ops;
};


/* With threads, each keeps its log to itself until the end, so that nothing but the library makes them meet. */
static void runScript(const Script &sc, bool immediate, string *keep) {
	string log = "{\"T\":" + q(sc.id) + "}\n";
	auto flush = [&]() {
		size_t off = 0;
		while (off < log.size()) {
			ssize_t k = write(1, log.data() + off, log.size() - off);
			if (k <= 0) abort();
			off += static_cast<size_t>(k);
		}
		log.clear();
	};
	{
		Session s(sc.n[0], sc.n[1], sc.n[2], sc.n[3], sc.n[4], sc.n[5]);
		log += "{\"i\":0" + s.state() + "}\n";
		for (const vector<string> &t : sc.ops) {
			if (immediate) flush();
			string r = s.run(t);
			log += "{\"r\":" + r + s.state() + "}\n";
		}
	}
	log += "{\"E\":1}\n";
	if (keep != nullptr)
		*keep += log;
	else
		flush();
}


#ifdef COUNT_OPS
static std::atomic<long> counted(0);
void countOps(long n) { counted += n; }
#endif


int main(int argc, char *argv[]) {
	std::ifstream in(argv[1]);
	int threads = argc > 2 ? std::atoi(argv[2]) : 0;
	vector<Script> scripts;
	string line;
	while (std::getline(in, line)) {
		std::istringstream ss(line);
		vector<string> t;
		string x;
		while (ss >> x) t.push_back(x);
		if (t.empty()) continue;
		if (t[0] == "T") {
			Script sc;
			sc.id = t[1];
			for (int i = 0; i < 6; i++) sc.n[i] = num(t[2 + static_cast<size_t>(i)]);
			scripts.push_back(sc);
		} else
			scripts.back().ops.push_back(t);
	}
	if (threads == 0) {
		for (const Script &s : scripts)
			runScript(s, true, nullptr);
	} else {
		vector<string> logs(static_cast<size_t>(threads));
		std::atomic<size_t> next(0), ready(0);
		vector<std::thread> ts;
		for (int k = 0; k < threads; k++)
			ts.push_back(std::thread([&, k]() {
				ready++;
				while (ready < static_cast<size_t>(threads)) {}
				for (size_t i; (i = next.fetch_add(1, std::memory_order_relaxed)) < scripts.size(); )
					runScript(scripts[i], false, &logs[static_cast<size_t>(k)]);
			}));
		for (std::thread &t : ts) t.join();
		for (const string &l : logs) {
			for (size_t off = 0; off < l.size(); ) {
				ssize_t n = write(1, l.data() + off, l.size() - off);
				if (n <= 0) abort();
				off += static_cast<size_t>(n);
			}
		}
	}
	return 0;
}
