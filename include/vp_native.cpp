// native implementation: replay of recorded inputs, then a seeded generator
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <vector>
#include <string>
#include <exception>
static std::vector<uint64_t> rec, given;
static size_t pos;
static jmp_buf jb;
static uint64_t rng;
static std::string failed;
static uint64_t rnd() { rng += 0x9E3779B97F4A7C15ull; uint64_t z = rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t pick(int bits) {
	uint64_t v;
	if (pos < given.size()) v = given[pos];
	else {
		uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
		switch (rnd() % 8) {
		case 0: v = rnd() % 4; break;
		case 1: v = m - rnd() % 3; break;
		case 2: { int k = rnd() % bits; v = (1ull << k) - (rnd() % 3) + 1; break; }
		case 3: v = rnd() & m >> (rnd() % bits); break;
		case 4: v = 0x20 + rnd() % 0x5f; break;
		default: v = rnd();
		}
		v &= m;
	}
	pos++;
	rec.push_back(v);
	return v;
}
extern "C" {
uint8_t vp_u8() { return (uint8_t)pick(8); }
uint16_t vp_u16() { return (uint16_t)pick(16); }
uint32_t vp_u32() { return (uint32_t)pick(32); }
uint64_t vp_u64() { return pick(64); }
bool vp_bool() { return pick(1) & 1; }
uint64_t vp_range(uint64_t lo, uint64_t hi) {
	uint64_t v;
	if (pos < given.size()) v = given[pos];
	else { uint64_t w = hi - lo + 1; uint64_t r = rnd(); uint64_t k = rnd() % 6; v = w == 0 ? r : lo + (k == 0 ? 0 : k == 1 ? w - 1 : r % w); }
	pos++; rec.push_back(v);
	if (v < lo || v > hi) longjmp(jb, 2);
	return v;
}
uint32_t vp_choice(uint32_t n) {
	if (!n) longjmp(jb, 2);
	uint64_t v; if (pos < given.size()) v = given[pos]; else v = rnd() % n;
	pos++; rec.push_back(v); if (v >= n) longjmp(jb, 2); return (uint32_t)v; }
uint64_t vp_concrete(uint64_t v) { return v; }
void vp_assume(bool c) { if (!c) longjmp(jb, 2); }
void vp_assert(bool c, const char *n) { if (!c) { failed = n; longjmp(jb, 1); } }
void vp_cover(const char *) {}
void vp_inv(bool, const char *) {}
void vp_cand(uint64_t) {}
void vp_candp(const void *) {}
uint64_t vp_fun(uint32_t, uint64_t, uint64_t) { return 0; }
void vp_end() { longjmp(jb, 3); }
void *vp_alloc(size_t n) { return malloc(n); }
void *vp_array(size_t es, size_t n) {
	if (es * n > (1u << 24)) longjmp(jb, 2);
	unsigned char *p = (unsigned char *)malloc(es * n + 1);
	for (size_t i = 0; i < es * n; i++) p[i] = (unsigned char)rnd();
	return p; }
void vp_havoc(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)rnd(); }
void vp_havoc_array(void *) {}
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
bool vp_implies(bool a, bool b) { return !a || b; }
uint64_t vp_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int vp_symbolic() { return 0; }
void vp_cycle_begin(void *, size_t, const char *) {}
void vp_cycle_end(void *, size_t, const char *) {}
}
static void dump(const char *why) {
	printf("NATIVE-FAIL %s\nINPUTS", why);
	for (size_t i = 0; i < rec.size(); i++) printf(" %llu", (unsigned long long)rec[i]);
	printf("\n"); fflush(stdout);
}
static void onsig(int s) { char b[64]; snprintf(b, 64, "signal %d", s); dump(s == SIGALRM ? "does not terminate (5 s)" : b); _exit(1); }
struct H { const char *n; void (*f)(); };
extern H vp_harness_table[];
#ifndef __SANITIZE_ADDRESS__
#endif
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void ondeath() { dump("sanitizer report"); }
// usage: native HARNESS replay v1 v2 ... | native HARNESS search SEED SECONDS
int main(int argc, char **argv) {
	setvbuf(stdout, 0, _IOLBF, 0);
	void (*f)() = 0;
	for (H *h = vp_harness_table; h->n; h++) if (!strcmp(h->n, argv[1])) f = h->f;
	if (!f) { fprintf(stderr, "no harness\n"); return 9; }
	signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig); signal(SIGTRAP, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig);
	if (&__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath);
	bool search = !strcmp(argv[2], "search");
	uint64_t seed = 1; double secs = 0;
	if (search) { seed = strtoull(argv[3], 0, 10); secs = atof(argv[4]); }
	else for (int i = 3; i < argc; i++) given.push_back(strtoull(argv[i], 0, 10));
	time_t t0 = time(0);
	volatile uint64_t n = 0, used = 0;
	do {
		rec.clear(); pos = 0; rng = (seed + n) * 0x2545F4914F6CDD1Dull; n = n + 1;
		alarm(5);
		int r = setjmp(jb);
		if (r == 0) {
			try { f(); used = used + 1; }
			catch (std::exception &e) { dump("exception escapes the harness"); return 1; }
			catch (...) { dump("exception escapes the harness"); return 1; }
		} else if (r == 1) { dump(failed.c_str()); return 1; }
		else if (r == 3) used = used + 1;
	} while (search && time(0) - t0 < secs);
	printf("NATIVE-OK runs=%llu completed=%llu\n", (unsigned long long)n, (unsigned long long)used);
	return 0;
}
