/* 
 * Stand-ins for functions of the C library that library code may call: those whose running time depends on the bytes they
 * read report how far they read, the others the place and length they are given. Compile with -fno-builtin.
 */
#include <cstddef>
#include <cstdint>

extern bool ctWatching();
extern void ctNote(std::uint64_t x);

typedef const unsigned char *Src;
static std::uint64_t at(const void *p) { return reinterpret_cast<std::uintptr_t>(p); }

static int compare(Src a, Src b, std::size_t n, bool text) {
	for (std::size_t i = 0; i < n; i++) {
		if (ctWatching()) {
			ctNote(at(a + i) * 2 + 1);
			ctNote(at(b + i) * 2 + 1);
		}
		if (a[i] != b[i])
			return a[i] < b[i] ? -1 : 1;
		if (text && a[i] == 0)
			return 0;
	}
	return 0;
}

static void range(const void *d, const void *s, std::size_t n) {
	if (ctWatching()) {
		ctNote(at(d));
		ctNote(at(s));
		ctNote(n);
	}
}

extern "C" {
int memcmp(const void *a, const void *b, std::size_t n) { return compare(static_cast<Src>(a), static_cast<Src>(b), n, false); }
int bcmp(const void *a, const void *b, std::size_t n) { return compare(static_cast<Src>(a), static_cast<Src>(b), n, false); }
int strcmp(const char *a, const char *b) { return compare(reinterpret_cast<Src>(a), reinterpret_cast<Src>(b), SIZE_MAX, true); }
int strncmp(const char *a, const char *b, std::size_t n) { return compare(reinterpret_cast<Src>(a), reinterpret_cast<Src>(b), n, true); }

void *memchr(const void *a, int c, std::size_t n) {
	Src p = static_cast<Src>(a);
	for (std::size_t i = 0; i < n; i++) {
		if (ctWatching())
			ctNote(at(p + i) * 2 + 1);
		if (p[i] == static_cast<unsigned char>(c))
			return const_cast<unsigned char*>(p + i);
	}
	return nullptr;
}

void *memcpy(void *d, const void *s, std::size_t n) {
	range(d, s, n);
	unsigned char *x = static_cast<unsigned char*>(d);
	Src y = static_cast<Src>(s);
	for (std::size_t i = 0; i < n; i++)
		x[i] = y[i];
	return d;
}

void *memmove(void *d, const void *s, std::size_t n) {
	range(d, s, n);
	unsigned char *x = static_cast<unsigned char*>(d);
	Src y = static_cast<Src>(s);
	if (at(d) < at(s)) {
		for (std::size_t i = 0; i < n; i++)
			x[i] = y[i];
	} else {
		for (std::size_t i = n; i > 0; i--)
			x[i - 1] = y[i - 1];
	}
	return d;
}

void *memset(void *d, int c, std::size_t n) {
	range(d, d, n);
	unsigned char *x = static_cast<unsigned char*>(d);
	for (std::size_t i = 0; i < n; i++)
		x[i] = static_cast<unsigned char>(c);
	return d;
}
}
