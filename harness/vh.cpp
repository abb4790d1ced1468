#include "vh.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <malloc.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <link.h>

#define NCOUNT 1024
#define NDIST (1u << 20)
struct Shared {
    volatile uint64_t cur; volatile int done; volatile int err; volatile int aborted;
    char ctx[4096]; char phase[256]; char errmsg[512];
    size_t inlen; uint8_t input[1 << 20];
    struct { char name[64]; uint64_t n; } cnt[NCOUNT];
    uint64_t dist[NDIST]; uint64_t ndist;
    uint64_t evals; int nsamples;
};
static Shared *S;
static int outfd = -1;
static std::string outpath, tmpdir;
static std::map<std::string, std::string> args;
uint64_t vh_seed = 1, vh_ncases = 100; bool vh_thorough = false, vh_verbose = false;
int vh_case_cpu_limit = 20;

static std::string jstr(const std::string &s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static void emit(const std::string &s) { std::string l = s + "\n"; if (write(outfd, l.data(), l.size()) < 0) {} }
static std::string hex(const uint8_t *p, size_t n) { std::string o; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", p[i]); o += b; } return o; }
static void viol(const char *key, const std::string &msg) {
    size_t n = S->inlen > 65536 ? 65536 : S->inlen;
    emit("{\"t\":\"viol\",\"case\":" + std::to_string(S->cur) + ",\"key\":" + jstr(key) + ",\"msg\":" + jstr(msg) + ",\"ctx\":" + jstr(S->ctx) + ",\"input\":\"" + hex(S->input, n) + "\"}");
    if (vh_verbose) fprintf(stderr, "VIOL %s: %s [%s]\n", key, msg.c_str(), S->ctx);
}
void vh_fail(const char *key, const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); viol(key, b); throw CaseAbort(); }
void vh_soft(const char *key, const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); viol(key, b); }
void vh_error(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(S->errmsg, sizeof S->errmsg, fmt, a); va_end(a); S->err = 1; fprintf(stderr, "HARNESS ERROR %s\n", S->errmsg); _exit(77); }
void vh_count(const char *name, uint64_t n) {
    uint64_t h = vh_hash(name, strlen(name)) % NCOUNT;
    for (int k = 0; k < NCOUNT; k++, h = (h + 1) % NCOUNT) {
        if (!S->cnt[h].name[0]) { strncpy(S->cnt[h].name, name, 63); }
        if (!strncmp(S->cnt[h].name, name, 63)) { S->cnt[h].n += n; return; }
    }
}
void vh_distinct(uint64_t v) { if (!v) v = 1; uint64_t h = v % NDIST; if (S->ndist > NDIST * 3 / 4) return; for (;; h = (h + 1) % NDIST) { if (S->dist[h] == v) return; if (!S->dist[h]) { S->dist[h] = v; S->ndist++; return; } } }
void vh_sample(const char *fmt, ...) { if (S->nsamples >= 2) return; S->nsamples++; char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); emit("{\"t\":\"sample\",\"s\":" + jstr(b) + "}"); }
void vh_context(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(S->ctx, sizeof S->ctx, fmt, a); va_end(a); if (vh_verbose) fprintf(stderr, "# %s\n", S->ctx); }
void vh_phase(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(S->phase, sizeof S->phase, fmt, a); va_end(a); }
void vh_input(const void *p, size_t n) { S->inlen = n; memcpy(S->input, p, n > sizeof S->input ? sizeof S->input : n); }
const char *vh_tmpdir() { return tmpdir.c_str(); }
const char *vh_arg(const char *n, const char *d) { auto i = args.find(n); return i == args.end() ? d : i->second.c_str(); }

VMem vmem = {64u << 20, 0, 0, -1, 0, 0xA5, 0}; bool vmem_sticky = true;
// libmng 2.0.2 writes past the end of rows of its own (16-bit grey with alpha becoming an object of less depth). That is
// not DevIL's doing and, unseen by the sanitizer, would ruin its records, so blocks handed to libmng have room behind them.
extern "C" void *__libc_stack_end; static uintptr_t mng_lo, mng_hi;
static void mng_range() { Dl_info di; void *p = dlsym(RTLD_DEFAULT, "mng_initialize"); if (!p || !dladdr(p, &di)) return; dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *base) { if (i->dlpi_addr != (uintptr_t)base) return 0; for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { mng_lo = i->dlpi_addr + h.p_vaddr; mng_hi = mng_lo + h.p_memsz; } } return 1; }, di.dli_fbase); }
#define FOR_MNG(yes) bool yes = false; { uintptr_t *f = (uintptr_t *)__builtin_frame_address(0); for (int i = 0; i < 5 && mng_hi; i++) { if (f[1] >= mng_lo && f[1] < mng_hi) { yes = true; break; } uintptr_t *g = (uintptr_t *)f[0]; if (g <= f || g + 2 > (uintptr_t *)__libc_stack_end || ((uintptr_t)g & 7)) break; f = g; } }
__attribute__((no_sanitize("address"))) static void *v_alloc(const ILsizei n) {
    if (n > vmem.cap) { vmem.failed++; return NULL; }
    if (vmem.fail_after >= 0) { if (vmem.fail_after == 0) { vmem.failed++; if (!vmem_sticky) vmem.fail_after = -1; return NULL; } vmem.fail_after--; }
    FOR_MNG(mng) void *p = malloc(mng ? (size_t)n * 9 + 1024 : n); if (!p) return NULL;
    if (vmem.fill >= 0) memset(p, vmem.fill, n);
    vmem.live++; vmem.allocs++; vmem.live_bytes += malloc_usable_size(p);
    return p;
}
static void v_free(const void *const p) { if (!p) return; vmem.live--; vmem.live_bytes -= malloc_usable_size((void *)p); free((void *)p); }
struct THead { THead *prev, *next; long serial; size_t n; void *pc[8]; uint64_t pad, magic; };
static const uint64_t TMAGIC = 0xA110CA7EDB10C4ull; static THead thead = {&thead, &thead}; static long tserial; static bool tracked; long vmem_foreign;
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, size_t) __attribute__((weak));
__attribute__((no_sanitize("address"))) static void *t_alloc(const ILsizei n) {
    if ((size_t)n > vmem.cap) { vmem.failed++; return NULL; }
    if (vmem.fail_after >= 0) { if (vmem.fail_after == 0) { vmem.failed++; if (!vmem_sticky) vmem.fail_after = -1; return NULL; } vmem.fail_after--; }
    FOR_MNG(mng) THead *h = (THead *)malloc(sizeof(THead) + (mng ? (size_t)n * 9 + 1024 : n)); if (!h) return NULL; void *p = h + 1;
    if (vmem.fill >= 0) memset(p, vmem.fill, n);
    h->serial = ++tserial; h->n = n; h->magic = TMAGIC; void *b[12]; int k = backtrace(b, 12); for (int i = 0; i < 8; i++) h->pc[i] = i + 2 < k ? b[i + 2] : NULL;
    h->next = &thead; h->prev = thead.prev; thead.prev->next = h; thead.prev = h; vmem.live++; vmem.allocs++; vmem.live_bytes += n; return p;
}
static void t_free(const void *const p) {
    if (!p) return; THead *h = (THead *)p - 1; if (h->magic != TMAGIC) { vmem_foreign++; return; } // reading it is an error for ASan already
    h->magic = 0; h->prev->next = h->next; h->next->prev = h->prev; vmem.live--; vmem.live_bytes -= h->n; free(h);
}
void vmem_install_tracked() { void *b[2]; backtrace(b, 2); tracked = true; mng_range(); ilSetMemory(t_alloc, t_free); }
long vmem_serial() { return tserial; }
std::string vmem_leaks(long since, int max, std::string *key) {
    std::string s; int n = 0; for (THead *h = thead.next; h != &thead; h = h->next) if (h->serial > since && n++ < max) {
        std::string f, k; int kn = 0; for (int i = 0; i < 8 && h->pc[i]; i++) { char b[200] = ""; if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc((char *)h->pc[i] - 1, "%f", b, sizeof b); char *q = strchr(b, '('); if (q) *q = 0; if (!strcmp(b, "ialloc") || !strcmp(b, "icalloc") || !b[0]) continue; if (kn < 4) f += std::string(kn ? "<" : "") + b; if (kn < 2) k += std::string(kn ? "<" : "") + b; kn++; }
        char b[60]; snprintf(b, 60, "%s%zu bytes by ", n > 1 ? ", " : "", h->n); s += b + f; if (key && n == 1) *key = k; }
    return s;
}
// frees blocks that were not given back and were asked for by the function named (of another library, which lost them)
long vmem_drop(long since, const char *fn) {
    long c = 0; for (THead *h = thead.next, *n; h != &thead; h = n) { n = h->next; if (h->serial <= since) continue; bool hit = false; for (int i = 0; i < 8 && h->pc[i]; i++) { char b[200] = ""; if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc((char *)h->pc[i] - 1, "%f", b, sizeof b); hit |= !strncmp(b, fn, strlen(fn)); } if (hit) { t_free(h + 1); c++; } }
    return c;
}
void vmem_free(void *p) { if (tracked) t_free(p); else v_free(p); }
void vmem_install() { mng_range(); ilSetMemory(v_alloc, v_free); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static double child_cpu(pid_t p) { // user+sys of a live child, seconds
    char f[64], b[1024]; snprintf(f, 64, "/proc/%d/stat", p); int fd = open(f, O_RDONLY); if (fd < 0) return 0; int n = read(fd, b, 1023); close(fd); if (n <= 0) return 0; b[n] = 0;
    char *q = strrchr(b, ')'); if (!q) return 0; unsigned long ut = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st); return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}

static std::string readfile(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

int main(int argc, char **argv) {
    uint64_t from = 0, to = 0, step = 1, batch = 200; bool single = false, range = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; size_t e = a.find('=');
        std::string k = a.substr(2, e == std::string::npos ? e : e - 2), v = e == std::string::npos ? "1" : a.substr(e + 1);
        args[k] = v;
    }
    vh_seed = strtoull(vh_arg("seed", "1"), 0, 0); vh_thorough = !strcmp(vh_arg("tier", "quick"), "thorough");
    vh_ncases = strtoull(vh_arg("cases", "100"), 0, 0); outpath = vh_arg("out", "/dev/stdout"); tmpdir = vh_arg("tmp", "/tmp");
    batch = strtoull(vh_arg("batch", "200"), 0, 0); vh_verbose = args.count("v");
    int shard = atoi(vh_arg("shard", "0")), nshards = atoi(vh_arg("nshards", "1"));
    from = shard; step = nshards; to = vh_ncases;
    if (args.count("case")) { single = true; from = strtoull(args["case"].c_str(), 0, 0); step = 1; to = from + 1; batch = 1; }
    if (args.count("from")) { from = strtoull(args["from"].c_str(), 0, 0); }
    (void)range;
    outfd = open(outpath.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED || outfd < 0) { fprintf(stderr, "setup failed\n"); return 3; }
    signal(SIGPIPE, SIG_IGN);
    std::string logp = tmpdir + "/child.log";
    uint64_t i = from; uint64_t retry_case = ~0ull; int crashes = 0;
    bool nofork = args.count("nofork");
    while (i < to) {
        uint64_t end = i + batch * step; if (end > to) end = to;
        S->cur = i; S->done = 0; S->phase[0] = 0; S->ctx[0] = 0; S->inlen = 0; uint64_t bstart = i;
        if (nofork) { vh_setup(); for (uint64_t c = i; c < end; c += step) { S->cur = c; Rng r(vh_mix(vh_mix(vh_seed, 0x51), c)); try { vh_case(r, c); } catch (CaseAbort &) {} S->evals++; } i = end; continue; }
        fflush(stdout); fflush(stderr);
        int pp[2]; if (pipe2(pp, O_CLOEXEC) < 0) return 3;
        pid_t p = fork();
        if (p < 0) { close(pp[0]); close(pp[1]); usleep(100000); continue; }
        if (p == 0) {
            close(pp[0]);
            if (!vh_verbose || !single) { int fd = open(logp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); }
            struct rlimit rl = {1u << 28, 1u << 28}; setrlimit(RLIMIT_FSIZE, &rl);
            vh_setup();
            for (uint64_t c = i; c < end; c += step) {
                S->cur = c; S->inlen = 0; S->ctx[0] = 0; S->phase[0] = 0;
                Rng r(vh_mix(vh_mix(vh_seed, 0x51), c));
                try { vh_case(r, c); } catch (CaseAbort &) { S->aborted++; S->evals++; if (c + step < end) { S->cur = c + step; S->done = 2; fflush(stdout); _exit(0); } }
                S->evals++;
            }
            S->done = 1; fflush(stdout); _exit(0);
        }
        // watch: per-case cpu limit
        int st = 0; uint64_t lastcase = ~0ull; double casecpu = 0, wall0 = now(); bool killed = false; double lim = vh_case_cpu_limit * (retry_case == i ? 3 : 1);
        close(pp[1]);
        for (;;) {
            struct pollfd pf = {pp[0], POLLIN, 0};
            if (poll(&pf, 1, 50) > 0) { waitpid(p, &st, 0); break; }
            uint64_t c = S->cur; double cpu = child_cpu(p);
            if (c != lastcase) { lastcase = c; casecpu = cpu; wall0 = now(); }
            else if (cpu - casecpu > lim || now() - wall0 > lim * 20) { killed = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        }
        close(pp[0]);
        if (S->err) { emit(std::string("{\"t\":\"error\",\"msg\":") + jstr(S->errmsg) + "}"); return 3; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->done) {
            i = S->done == 2 ? (uint64_t)S->cur : bstart + ((end - bstart + step - 1) / step) * step;
            continue;
        }
        uint64_t c = S->cur;
        if (killed) {
            if (retry_case != c) { retry_case = c; i = c; vh_count("timeouts_retried"); continue; }
            std::string key = std::string("hang:") + S->phase; viol(key.c_str(), "no result after the cpu-time limit, twice");
        } else {
            std::string log = readfile(logp);
            emit("{\"t\":\"crash\",\"case\":" + std::to_string(c) + ",\"batch\":" + std::to_string(bstart) + ",\"phase\":" + jstr(S->phase) + ",\"ctx\":" + jstr(S->ctx) + ",\"status\":" + std::to_string(st) + ",\"log\":" + jstr(log.size() > 12000 ? log.substr(0, 12000) : log) + ",\"input\":\"" + hex(S->input, S->inlen > 65536 ? 65536 : S->inlen) + "\"}");
        }
        S->evals++; i = c + step;
        if (++crashes > 200) { emit("{\"t\":\"note\",\"msg\":\"too many crashes, shard stopped early\"}"); break; }
    }
    std::string o = "{\"t\":\"end\",\"evals\":" + std::to_string(S->evals) + ",\"aborted\":" + std::to_string(S->aborted) + ",\"counts\":{";
    bool first = true; for (int k = 0; k < NCOUNT; k++) if (S->cnt[k].name[0]) { if (!first) o += ","; first = false; o += jstr(S->cnt[k].name) + ":" + std::to_string(S->cnt[k].n); }
    o += "}}"; emit(o);
    if (args.count("dist")) { int fd = open(args["dist"].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); std::vector<uint64_t> v; for (uint64_t k = 0; k < NDIST; k++) if (S->dist[k]) v.push_back(S->dist[k]); if (write(fd, v.data(), v.size() * 8) < 0) {} close(fd); }
    return 0;
}
