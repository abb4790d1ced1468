// Common runtime-monitoring harness: deterministic cases, forked execution, violation recording.
#pragma once
#include <IL/il.h>
#include <IL/ilu.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

typedef std::vector<uint8_t> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t u32() { return (uint32_t)(next() >> 32); }
    // uniform in [0,n)
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};

struct CaseAbort {};

// ---- recording (shared memory + per-shard result file) ----
void vh_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));   // records violation, aborts the case
void vh_soft(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));   // records violation, continues
void vh_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));                    // harness error: run is void
void vh_count(const char *name, uint64_t n = 1);
void vh_distinct(uint64_t h);          // this case is a distinct non-trivial one with signature h
void vh_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vh_context(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // describe what is about to run (for crash keys/messages)
void vh_phase(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // short token used in crash keys
void vh_input(const void *p, size_t n);  // bytes of the input under test (saved to the replay on crash)
const char *vh_tmpdir();               // scratch directory of this shard
const char *vh_arg(const char *name, const char *def);  // --name=value
extern uint64_t vh_seed; extern bool vh_thorough; extern uint64_t vh_ncases;
extern bool vh_verbose;
inline uint64_t vh_mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
inline uint64_t vh_hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }

// ---- memory (ilSetMemory) ----
struct VMem { size_t cap; long live; long allocs; long fail_after; long failed; int fill; size_t live_bytes; };
extern VMem vmem;                       // fail_after <0: never; 0: the next allocation fails and so do later ones if fail_sticky
extern bool vmem_sticky;
void vmem_install();
void vmem_free(void *p);
// blocks with a header: who allocated what is still there, and nothing else is ever released
void vmem_install_tracked();
long vmem_serial();                     // number of the last block
long vmem_drop(long since, const char *fn);
std::string vmem_leaks(long since, int max, std::string *key);   // the blocks after that number which still live, with callers
extern long vmem_foreign;               // blocks released that were never obtained

// ---- implemented by the check ----
void vh_setup();                        // once per child
void vh_case(Rng &r, uint64_t idx);     // one case
extern int vh_case_cpu_limit;           // seconds of cpu time per case
