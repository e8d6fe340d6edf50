/* native runner: replays a recorded draw sequence on the real code, or searches randomly */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#ifndef VF_NATMAX
#define VF_NATMAX 48
#endif
void vf_harness(void);
void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
jmp_buf vf_skip_jmp;
#define MAXD 65536
static uint64_t draws[MAXD]; static unsigned nd;
static uint64_t *replay; static unsigned nreplay; static int replaying;
static uint64_t rng; static const char *outp;
static void *tracked[65536]; static unsigned ntracked;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
static uint64_t log_(uint64_t v) { if (nd < MAXD) draws[nd++] = v; return v; }
static int dumped;
static void dump(const char *why)
{
	if (dumped || !outp) return; dumped = 1;
	FILE *f = (fopen)(outp, "w"); if (!f) return;
	fprintf(f, "%s\n", why);
	for (unsigned i = 0; i < nd; i++) fprintf(f, "%llu\n", (unsigned long long)draws[i]);
	(fclose)(f);
}
static void death(void) { dump("sanitizer report"); }
static void onalarm(int s) { (void)s; dump("no termination within the time limit"); write(2, "VF-HANG\n", 8); _exit(78); }
uint64_t vf_nat_draw(int bits)
{
	uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
	if (replaying) return log_(nd < nreplay ? (replay[nd] & m) : 0);
	uint64_t v = rnd();
	if (bits > 1) switch (rnd() % 8) {
	case 0: v = 0; break; case 1: v = rnd() % 4; break; case 2: v = m - rnd() % 4; break;
	case 3: v = (1ULL << (rnd() % bits)) + rnd() % 3 - 1; break; case 4: v = rnd() % 64; break; default: break; }
	return log_(v & m);
}
uint64_t vf_nat_range(uint64_t lo, uint64_t hi)
{
	if (replaying) { uint64_t v = nd < nreplay ? replay[nd] : lo; log_(v); if (v < lo || v > hi) longjmp(vf_skip_jmp, 1); return v; }
	uint64_t span = hi - lo, v;
	switch (rnd() % 8) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = lo + (span ? rnd() % (span < 16 ? span + 1 : 16) : 0); break;
	case 3: v = hi - (span ? rnd() % (span < 16 ? span + 1 : 16) : 0); break; default: v = span == ~0ULL ? rnd() : lo + rnd() % (span + 1); }
	return log_(v);
}
uint64_t vf_nat_size(uint64_t lo, uint64_t hi)
{
	if (replaying) return vf_nat_range(lo, hi);
	if (hi > lo && hi - lo > VF_NATMAX) hi = lo + ((rnd() % 4) ? VF_NATMAX / 4 + 1 : VF_NATMAX);
	return vf_nat_range(lo, hi);
}
void *vf_nat_alloc(size_t n)
{
	void *p = malloc(n ? n : 1); /* exact-size object; zero-size objects get one byte */
	if (!p) abort();
	if (ntracked < 65536) tracked[ntracked++] = p;
	return p;
}
void *vf_nat_buf(size_t n, size_t maxn, const char *alpha)
{
	unsigned char *p = vf_nat_alloc(n); size_t la = alpha ? strlen(alpha) : 0;
	int mode = replaying ? 0 : (int)(rnd() % 4);
	for (size_t i = 0; i < (n > maxn ? n : maxn); i++) {
		uint64_t c;
		if (replaying) c = (nd < nreplay ? replay[nd] & 255 : 0);
		else if (la && mode) c = (unsigned char)alpha[rnd() % (la + 1)];
		else if (mode == 1) c = rnd() % 4; else if (mode == 2) c = 32 + rnd() % 95; else c = rnd() & 255;
		log_(c);
		if (i < n) p[i] = (unsigned char)c;
	}
	return p;
}
void vf_nat_fail(const char *msg, const char *file, int line)
{
	fprintf(stderr, "VF-FAIL: contract violated: %s (%s:%d)\n", msg, file, line);
	dump(msg); fflush(stderr); _exit(77);
}
static int one(void)
{
	nd = 0; ntracked = 0;
	int ok = 1;
	alarm(20);
	if (setjmp(vf_skip_jmp) == 0) vf_harness(); else ok = 0;
	alarm(0);
	for (unsigned i = 0; i < ntracked; i++) free(tracked[i]);
	return ok;
}
int main(int argc, char **argv)
{
	/* prog replay <infile> <outfile>  |  prog fuzz <seed> <seconds> <maxexec> <outfile> */
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
	signal(SIGALRM, onalarm);
	if (argc >= 4 && !strcmp(argv[1], "replay")) {
		FILE *f = (fopen)(argv[2], "r"); char line[256]; if (!f) return 2;
		replay = calloc(MAXD, 8);
		while (fgets(line, sizeof line, f)) if (line[0] >= '0' && line[0] <= '9' && nreplay < MAXD) replay[nreplay++] = strtoull(line, 0, 10);
		(fclose)(f); replaying = 1; outp = argv[3];
		int ok = one();
		printf("replay: %s\n", ok ? "no violation" : "precondition not met");
		return ok ? 0 : 3;
	}
	uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1; double secs = argc > 3 ? atof(argv[3]) : 2;
	unsigned long maxe = argc > 4 ? strtoul(argv[4], 0, 10) : 1000000; outp = argc > 5 ? argv[5] : NULL;
	struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	unsigned long n = 0, ok = 0;
	for (; n < maxe; n++) {
		rng = (seed * 0x9E3779B97F4A7C15ULL + n * 0xD1B54A32D192ED03ULL) | 1; rnd(); rnd();
		ok += one();
		if ((n & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &b); if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9 > secs) break; }
	}
	printf("fuzz: execs=%lu valid=%lu\n", n, ok);
	return 0;
}
