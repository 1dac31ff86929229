/* 
 * Observes what executions of the library's constant-time calls look like from outside: the sequence of
 * instructions (or basic blocks) and the addresses of all loads and stores. spec/BitcoinCrypto.tla (Observe) says
 * that executions of the same class have equal observations.
 * 
 * Usage: ctdriver SCRIPT            - blocks, loads and stores of code built with clang's -fsanitize-coverage
 *        ctdriver SCRIPT TABLE      - the machine instructions of the assembly code, by single-stepping; TABLE gives
 *                                     their memory operands
 * Script lines: CLASS OP ARG...
 */
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <signal.h>
#include <ucontext.h>
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "FieldInt.hpp"
#include "Sha256Hash.hpp"
#include "Uint256.hpp"

using std::string;
using std::vector;

#define NOINLINE __attribute__((noinline))


/*---- What is observed ----*/

// Memory that a call allocates comes from an arena that starts afresh with every call, so that equal executions see equal addresses.
alignas(64) static unsigned char arena[1 << 22];
static size_t arenaUsed = 0;

static volatile bool watching = false;
static uint64_t digest;
static uint64_t steps;

void *operator new(size_t n) {
	if (watching && arenaUsed + n + 64 <= sizeof(arena)) {
		void *p = arena + arenaUsed;
		arenaUsed += (n + 63) / 64 * 64;
		return p;
	}
	void *p = std::malloc(n ? n : 1);
	if (p == nullptr) std::abort();
	return p;
}
void operator delete(void *p) noexcept {
	if (p >= arena && p < arena + sizeof(arena)) return;
	std::free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static inline void note(uint64_t x) {
	digest = (digest ^ x) * UINT64_C(0x9E3779B97F4A7C15);
	digest ^= digest >> 29;
	steps++;
}

#ifdef COUNT_OPS
static long counted = 0;
void countOps(long n) { if (watching) counted += n; }
#endif

bool ctWatching() { return watching; }      // For ctlibc.cpp
void ctNote(uint64_t x) { note(x); }

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	static uint32_t n = 0;
	for (; a < b; a++) if (!*a) *a = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (watching) note(*g); }
#define MEM(k) \
	void __sanitizer_cov_load##k(void *p) { if (watching) note(reinterpret_cast<uintptr_t>(p) * 2 + 1); } \
	void __sanitizer_cov_store##k(void *p) { if (watching) note(reinterpret_cast<uintptr_t>(p) * 2); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
void __sanitizer_cov_trace_div4(uint32_t v) { if (watching) note(v); }
void __sanitizer_cov_trace_div8(uint64_t v) { if (watching) note(v); }
}


// Memory operands of the instruction at each address
struct Operand { int8_t base, index; uint8_t scale; int32_t disp; uint32_t next; };
static vector<uint32_t> first;
static vector<Operand> operands;
static uintptr_t textStart = 0;
static bool stepping = false;

static void onTrap(int, siginfo_t *, void *c) {
	if (!watching) return;
	const greg_t *g = static_cast<ucontext_t*>(c)->uc_mcontext.gregs;
	uintptr_t ip = static_cast<uintptr_t>(g[REG_RIP]);
	uintptr_t k = ip - textStart;
	if (k < first.size()) {
		note(ip);
		for (uint32_t o = first[k]; o != 0; o = operands[o].next) {
			const Operand &p = operands[o];
			uint64_t ea = static_cast<uint64_t>(static_cast<int64_t>(p.disp));
			if (p.base >= 0) ea += static_cast<uint64_t>(g[p.base]);
			if (p.index >= 0) ea += static_cast<uint64_t>(g[p.index]) * p.scale;
			note(ea);
		}
	}
}

static int regIndex(const string &r) {
	static const struct { const char *name; int i; } R[] = {{"rax", REG_RAX}, {"rbx", REG_RBX}, {"rcx", REG_RCX}, {"rdx", REG_RDX}, {"rsi", REG_RSI}, {"rdi", REG_RDI},
		{"rbp", REG_RBP}, {"rsp", REG_RSP}, {"r8", REG_R8}, {"r9", REG_R9}, {"r10", REG_R10}, {"r11", REG_R11}, {"r12", REG_R12}, {"r13", REG_R13}, {"r14", REG_R14}, {"r15", REG_R15}};
	for (auto &x : R)
		if (r == x.name) return x.i;
	return -1;
}

static void loadTable(const char *path) {
	std::ifstream in(path);
	uintptr_t end;
	in >> std::hex >> textStart >> end;
	first.assign(end - textStart, 0);
	operands.resize(1);
	uintptr_t ip;
	string base, index;
	long scale, disp;
	while (in >> std::hex >> ip >> base >> index >> std::dec >> scale >> disp) {
		Operand o;
		o.base = static_cast<int8_t>(regIndex(base));
		o.index = static_cast<int8_t>(regIndex(index));
		o.scale = static_cast<uint8_t>(scale);
		o.disp = static_cast<int32_t>(disp);
		o.next = first[ip - textStart];
		first[ip - textStart] = static_cast<uint32_t>(operands.size());
		operands.push_back(o);
	}
}

static NOINLINE void begin() {
	digest = 1;
	steps = 0;
	arenaUsed = 0;
#ifdef COUNT_OPS
	counted = 0;
#endif
	watching = true;
	if (stepping)
		asm volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

static NOINLINE void end() {
	if (stepping)
		asm volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
	watching = false;
#ifdef COUNT_OPS
	note(static_cast<uint64_t>(counted));
	steps = static_cast<uint64_t>(counted);
#endif
}


/*---- The calls ----*/

struct alignas(64) Slots {
	Uint256 u[5];
	FieldInt f[3];
	CurvePoint p[2];
	uint8_t bytes[2][64];
	Slots() : f{FieldInt(Uint256()), FieldInt(Uint256()), FieldInt(Uint256())}, p{CurvePoint::ZERO, CurvePoint::ZERO} {}
};
static Slots *S;
static uint32_t en;
static volatile int sink;

enum Op { UAdd, USub, UShl1, UShr1, UInv, UReplace, USwap, UEq, UNe, ULt, ULe, UGt, UGe, UToBytes, UFromBytes, UFromF,
	FAddA, FSubA, FDblA, FSqrA, FMulA, FInvA, FReplace, FFromU, FEq, FLt, FToBytes,
	PAdd, PTwice, PMul, PNormalize, PReplace, POnCurve, PIsZero, PEq, PNe, PCompress, PPublic, PFromXY,
	ESign, ESignHmac, DFromBytes, DEq, DNe, COUNT };
static const char *const NAMES[] = {"UAdd", "USub", "UShl1", "UShr1", "UInv", "UReplace", "USwap", "UEq", "UNe", "ULt", "ULe", "UGt", "UGe", "UToBytes", "UFromBytes", "UFromF",
	"FAddA", "FSubA", "FDblA", "FSqrA", "FMulA", "FInvA", "FReplace", "FFromU", "FEq", "FLt", "FToBytes",
	"PAdd", "PTwice", "PMul", "PNormalize", "PReplace", "POnCurve", "PIsZero", "PEq", "PNe", "PCompress", "PPublic", "PFromXY",
	"ESign", "ESignHmac", "DFromBytes", "DEq", "DNe"};

static int call(Op op, Sha256Hash *d) {
	Slots &s = *S;
	int r = 1;
	switch (op) {
		#define C(name, stmt) case name: begin(); stmt; end(); break;
		C(UAdd, s.u[0].add(s.u[1], en)) C(USub, s.u[0].subtract(s.u[1], en)) C(UShl1, s.u[0].shiftLeft1()) C(UShr1, s.u[0].shiftRight1(en))
		C(UInv, s.u[0].reciprocal(s.u[1])) C(UReplace, s.u[0].replace(s.u[1], en)) C(USwap, s.u[0].swap(s.u[1], en))
		C(UEq, sink = s.u[0] == s.u[1]) C(UNe, sink = s.u[0] != s.u[1]) C(ULt, sink = s.u[0] < s.u[1]) C(ULe, sink = s.u[0] <= s.u[1])
		C(UGt, sink = s.u[0] > s.u[1]) C(UGe, sink = s.u[0] >= s.u[1])
		C(UToBytes, s.u[0].getBigEndianBytes(s.bytes[1])) C(UFromBytes, s.u[0] = Uint256(s.bytes[0])) C(UFromF, s.u[0] = Uint256(s.f[0]))
		C(FAddA, s.f[0].add(s.f[1])) C(FSubA, s.f[0].subtract(s.f[1])) C(FDblA, s.f[0].multiply2()) C(FSqrA, s.f[0].square()) C(FMulA, s.f[0].multiply(s.f[1]))
		C(FInvA, s.f[0].reciprocal()) C(FReplace, s.f[0].replace(s.f[1], en)) C(FFromU, s.f[0] = FieldInt(s.u[0]))
		C(FEq, sink = s.f[0] == s.f[1]) C(FLt, sink = s.f[0] < s.f[1]) C(FToBytes, s.f[0].getBigEndianBytes(s.bytes[1]))
		C(PAdd, s.p[0].add(s.p[1])) C(PTwice, s.p[0].twice()) C(PMul, s.p[0].multiply(s.u[0])) C(PNormalize, s.p[0].normalize())
		C(PReplace, s.p[0].replace(s.p[1], en)) C(POnCurve, sink = s.p[0].isOnCurve()) C(PIsZero, sink = s.p[0].isZero())
		C(PEq, sink = s.p[0] == s.p[1]) C(PNe, sink = s.p[0] != s.p[1]) C(PCompress, s.p[0].toCompressedPoint(s.bytes[1]))
		C(PPublic, s.p[0] = CurvePoint::privateExponentToPublicPoint(s.u[0])) C(PFromXY, s.p[0] = CurvePoint(s.f[0], s.f[1]))
		C(ESign, r = Ecdsa::sign(s.u[0], d[0], s.u[1], s.u[2], s.u[3]))
		C(ESignHmac, r = Ecdsa::signWithHmacNonce(s.u[0], d[0], s.u[2], s.u[3]))
		C(DFromBytes, d[0] = Sha256Hash(s.bytes[0], 32)) C(DEq, sink = d[0] == d[1]) C(DNe, sink = d[0] != d[1])
		default: abort();
	}
	return r;
}


static void setWords(uint32_t *v, const string &hex) {
	for (int i = 0; i < 8; i++)
		v[7 - i] = static_cast<uint32_t>(std::stoul(hex.substr(static_cast<size_t>(i) * 8, 8), nullptr, 16));
}

static void setBytes(uint8_t *v, const string &hex) {
	for (size_t i = 0; i < hex.size() / 2; i++)
		v[i] = static_cast<uint8_t>(std::stoi(hex.substr(2 * i, 2), nullptr, 16));
}

// Arguments: u=HEX, f=HEX, x/y/z=HEX (first point), X/Y/Z=HEX (second), b=HEX, d=HEX, e=0/1; in order
static void set(const vector<string> &t, Sha256Hash *d) {
	int nu = 0, nf = 0, nb = 0, nd = 0;
	for (size_t i = 2; i < t.size(); i++) {
		char k = t[i][0];
		string v = t[i].substr(2);
		switch (k) {
			case 'u': setWords(S->u[nu++].value, v); break;
			case 'f': setWords(S->f[nf++].value, v); break;
			case 'x': setWords(S->p[0].x.value, v); break;
			case 'y': setWords(S->p[0].y.value, v); break;
			case 'z': setWords(S->p[0].z.value, v); break;
			case 'X': setWords(S->p[1].x.value, v); break;
			case 'Y': setWords(S->p[1].y.value, v); break;
			case 'Z': setWords(S->p[1].z.value, v); break;
			case 'b': setBytes(S->bytes[nb++], v); break;
			case 'd': { uint8_t b[32]; setBytes(b, v); d[nd++] = Sha256Hash(b, 32); break; }
			case 'e': en = static_cast<uint32_t>(std::stoul(v)); break;
			default: abort();
		}
	}
}

int main(int argc, char *argv[]) {
	S = new Slots;
	Sha256Hash *d = static_cast<Sha256Hash*>(aligned_alloc(64, 2 * 64));
	std::memset(static_cast<void*>(d), 0, 128);
	static char stack[1 << 16];
	if (argc > 2) {
		loadTable(argv[2]);
		stepping = true;
		stack_t ss;
		std::memset(&ss, 0, sizeof(ss));
		ss.ss_sp = stack;
		ss.ss_size = sizeof(stack);
		sigaltstack(&ss, nullptr);
		struct sigaction sa;
		std::memset(&sa, 0, sizeof(sa));
		sa.sa_sigaction = onTrap;
		sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		sigaction(SIGTRAP, &sa, nullptr);
	}
	std::ifstream in(argv[1]);
	string line;
	bool ready[COUNT] = {};
	while (std::getline(in, line)) {
		std::istringstream is(line);
		vector<string> t;
		string x;
		while (is >> x) t.push_back(x);
		int op = 0;
		while (op < COUNT && t[1] != NAMES[op]) op++;
		bool known = ready[op];
		ready[op] = true;
		set(t, d);
		if (!known) {      // Whatever is initialized at the first call
			call(static_cast<Op>(op), d);
			set(t, d);
		}
		int r = call(static_cast<Op>(op), d);
		std::printf("{\"c\":\"%s\",\"o\":\"%016llx\",\"n\":%llu,\"r\":%d}\n", t[0].c_str(), static_cast<unsigned long long>(digest), static_cast<unsigned long long>(steps), r);
	}
	return 0;
}
