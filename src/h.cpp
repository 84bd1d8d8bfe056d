#include "h.h"
#include <stdlib.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sched.h>
#include <fcntl.h>
#include <malloc.h>
#include <locale.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <new>
#include <atomic>
#include <iconv.h>

bool g_thorough = false;
u64 g_seed = 1;

u32 Rng::edge32() {
    switch(below(8)) {
    case 0: return static_cast<u32>(below(4));
    case 1: return 0xFFFFFFFFu - static_cast<u32>(below(16));
    case 2: return 0x7FFFFFFFu + static_cast<u32>(below(3));
    case 3: return (1u << below(32)) - 1 + static_cast<u32>(below(3));
    case 4: return static_cast<u32>(below(0x10000));
    case 5: return 0xFFFFu - 1 + static_cast<u32>(below(4));
    case 6: return static_cast<u32>(below(256));
    default: return u32v();
    }
}
u64 Rng::edge64() {
    switch(below(5)) {
    case 0: return edge32();
    case 1: return 0ull - below(16);
    case 2: return (1ull << below(64)) - 1 + below(3);
    case 3: return 0x100000000ull - 2 + below(4);
    default: return next();
    }
}
std::string Rng::ident(size_t minlen, size_t maxlen) {
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@?.$";
    size_t n = range(minlen, maxlen); std::string r(n, 'a');
    for(size_t i = 0; i < n; ++i) r[i] = cs[below(sizeof(cs) - 1)];
    return r;
}

// ---------------------------------------------------------------- allocation monitor
namespace alloc {
u64 single_cap = 256ull << 20, total_cap = 1024ull << 20;
int fill = -1;
static std::atomic<i64> g_live(0), g_bytes(0), g_iconv(0);
static std::atomic<u64> g_allocs(0), g_iconv_opens(0);
static std::atomic<i64> g_countdown(0), g_iconv_countdown(0);
static std::atomic<bool> g_failed(false);
static bool g_track = true;
thread_local u64 jitter = 0;   // when set: a random sequence of pauses at allocations
i64 live() { return g_live.load(std::memory_order_relaxed); }
u64 allocs() { return g_allocs.load(std::memory_order_relaxed); }
static std::atomic<u64> g_stopped(0);
u64 stopped() { return g_stopped; }
void fail_at(u64 n) { if(n) g_failed = false; else if(g_countdown > 0) g_stopped = g_allocs.load(); g_countdown = static_cast<i64>(n); }
bool failed() { return g_failed; }
i64 iconv_live() { return g_iconv; }
u64 iconv_opens() { return g_iconv_opens; }
void iconv_fail_at(u64 n) { if(n) g_failed = false; g_iconv_countdown = static_cast<i64>(n); }
void track_leaks(bool on) { g_track = on; }

static void* get(size_t n, bool nothrow) {
    g_allocs.fetch_add(1, std::memory_order_relaxed);
    if(jitter) { jitter = jitter * 6364136223846793005ull + 1442695040888963407ull; u64 x = jitter >> 40; if(x % 61 == 0) sched_yield(); else if(x % 4099 == 1) usleep(static_cast<useconds_t>(50 + x % 200)); }
    if(g_countdown.load(std::memory_order_relaxed) > 0 && g_countdown.fetch_sub(1) == 1) {
        g_failed = true;
        if(nothrow) return 0;
        throw std::bad_alloc();
    }
    void* p = 0;
    if(n <= single_cap && static_cast<u64>(g_bytes.load(std::memory_order_relaxed)) + n <= total_cap)
        p = malloc(n ? n : 1);
    if(!p) { if(nothrow) return 0; throw std::bad_alloc(); }
    if(fill >= 0) memset(p, fill, n);
    g_live.fetch_add(1, std::memory_order_relaxed);
    g_bytes.fetch_add(static_cast<i64>(malloc_usable_size(p)), std::memory_order_relaxed);
    return p;
}
static void put(void* p) {
    if(!p) return;
    g_live.fetch_sub(1, std::memory_order_relaxed);
    g_bytes.fetch_sub(static_cast<i64>(malloc_usable_size(p)), std::memory_order_relaxed);
    free(p);
}
}
void* operator new(size_t n) { return alloc::get(n, false); }
void* operator new[](size_t n) { return alloc::get(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc::get(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc::get(n, true); }
void operator delete(void* p) noexcept { alloc::put(p); }
void operator delete[](void* p) noexcept { alloc::put(p); }
void operator delete(void* p, size_t) noexcept { alloc::put(p); }
void operator delete[](void* p, size_t) noexcept { alloc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { alloc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { alloc::put(p); }

// iconv handle balance and fault injection (linked with --wrap)
extern "C" {
iconv_t __real_iconv_open(const char*, const char*);
int __real_iconv_close(iconv_t);
iconv_t __wrap_iconv_open(const char* to, const char* from) {
    using namespace alloc;
    g_iconv_opens.fetch_add(1, std::memory_order_relaxed);
    if(g_iconv_countdown.load(std::memory_order_relaxed) > 0 && g_iconv_countdown.fetch_sub(1) == 1) { g_failed = true; return reinterpret_cast<iconv_t>(-1); }
    iconv_t r = __real_iconv_open(to, from);
    if(r != reinterpret_cast<iconv_t>(-1)) g_iconv.fetch_add(1, std::memory_order_relaxed);
    return r;
}
int __wrap_iconv_close(iconv_t c) { alloc::g_iconv.fetch_sub(1, std::memory_order_relaxed); return __real_iconv_close(c); }
}

// ---------------------------------------------------------------- reporting (malloc based: must not disturb the balance)
thread_local bool g_mute = false;
static const int MAXC = 512;
static struct { const char* n; u64 v; } g_counts[MAXC];
static int g_ncounts = 0;
void count(const char* name, u64 n) {
    if(g_mute) return;
    for(int i = 0; i < g_ncounts; ++i) if(g_counts[i].n == name || !strcmp(g_counts[i].n, name)) { g_counts[i].v += n; return; }
    if(g_ncounts < MAXC) { g_counts[g_ncounts].n = name; g_counts[g_ncounts++].v = n; }
}
static u64* g_hash = 0; static size_t g_hcap = 0, g_hn = 0;
void nontrivial(u64 h) {
    if(g_mute) return;
    if(g_hn == g_hcap) { g_hcap = g_hcap ? g_hcap * 2 : 1024; g_hash = static_cast<u64*>(realloc(g_hash, g_hcap * 8)); }
    g_hash[g_hn++] = h;
}
static char* g_samples[4]; static int g_nsamples = 0;
void sample(const std::string& t) { if(g_mute) return; if(g_nsamples < 3) g_samples[g_nsamples++] = strndup(t.c_str(), 4000); }
static char* g_in = 0; static size_t g_inlen = 0, g_incap = 0;
void note_input(const std::string& b) {
    if(g_mute) return;
    if(b.size() > g_incap) { g_incap = b.size(); g_in = static_cast<char*>(realloc(g_in, g_incap)); }
    if(b.size()) memcpy(g_in, b.data(), b.size());
    g_inlen = b.size();
}
u64 fnv(const void* p, size_t n, u64 h) { const u8* b = static_cast<const u8*>(p); for(size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return h; }
std::string hexs(const Bytes& b, size_t max) {
    std::string r; char t[4];
    for(size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, 4, "%02x", static_cast<u8>(b[i])); r += t; }
    if(b.size() > max) r += "...";
    return r;
}
std::string strf(const char* fmt, ...) { char buf[4096]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a); return buf; }
void fail(const std::string& key, const char* fmt, ...) {
    char buf[4096]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
    CaseFail f; f.key = key; f.msg = buf; throw f;
}

// ---------------------------------------------------------------- main loop
static FILE* g_out = 0; static u64* g_prog = 0; static std::string g_replay;
static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for(; *s; ++s) { unsigned char c = *s; if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static int g_limit = 20;
static void on_prof(int) { static const char m[] = "HARNESS-HANG: case exceeded its CPU limit\n"; ssize_t x = write(2, m, sizeof m - 1); (void)x; _exit(77); }
static void arm(int s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, 0); }

static void violation(u64 c, const char* key, const char* msg) {
    std::string path;
    if(!g_replay.empty() && g_inlen) {
        path = g_replay + "." + std::to_string(c) + ".input";
        FILE* f = fopen(path.c_str(), "wb"); if(f) { fwrite(g_in, 1, g_inlen, f); fclose(f); }
    }
    fprintf(g_out, "{\"t\":\"v\",\"case\":%llu,\"key\":", static_cast<unsigned long long>(c)); jstr(g_out, key);
    fprintf(g_out, ",\"msg\":"); jstr(g_out, msg); fprintf(g_out, ",\"input\":"); jstr(g_out, path.c_str()); fprintf(g_out, "}\n"); fflush(g_out);
}
static bool g_skipped = false;
static bool one(u64 idx) {
    u64 s = g_seed * 0x9E3779B97F4A7C15ull ^ (idx + 1) * 0xD1B54A32D192ED03ull ^ fnv(PROPERTY, strlen(PROPERTY));
    Rng r(s);
    bool ok = true;
    std::string key, msg;
    try { run_case(r, idx); }
    catch(const CaseFail& f) { key = f.key; msg = f.msg; ok = false; }
    catch(const CaseSkip&) { count("skipped"); g_skipped = true; }
    catch(const std::exception& e) { key = "unexpected-exception"; msg = e.what(); ok = false; }
    catch(...) { key = "non-std-exception"; msg = "exception not derived from std::exception"; ok = false; }
    alloc::fail_at(0); alloc::iconv_fail_at(0); alloc::fill = -1;
    if(!ok) violation(idx, key.c_str(), msg.c_str());
    return ok;
}
int main(int argc, char** argv) {
    setlocale(LC_ALL, "C.UTF-8");
    u64 from = 0, to = 0; const char *out = 0, *prog = 0; bool info = false; const char* hashes = 0;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i]; 
        if(a == "--info") info = true;
        else if(i + 1 >= argc) { fprintf(stderr, "bad args\n"); return 2; }
        else if(a == "--seed") g_seed = strtoull(argv[++i], 0, 10);
        else if(a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
        else if(a == "--from") from = strtoull(argv[++i], 0, 10);
        else if(a == "--to") to = strtoull(argv[++i], 0, 10);
        else if(a == "--out") out = argv[++i];
        else if(a == "--prog") prog = argv[++i];
        else if(a == "--hashes") hashes = argv[++i];
        else if(a == "--replay") g_replay = argv[++i];
        else if(a == "--limit") g_limit = atoi(argv[++i]);
    }
    if(info) { printf("{\"cases\":%llu,\"rule\":", static_cast<unsigned long long>(num_cases(g_thorough))); jstr(stdout, RULE); printf("}\n"); return 0; }
    g_out = out ? fopen(out, "w") : stdout;
    if(!g_out) return 2;
    static u64 dummy; g_prog = &dummy;
    if(prog) {
        int fd = open(prog, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, 8)) return 2;
        g_prog = static_cast<u64*>(mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if(g_prog == MAP_FAILED) return 2;
    }
    signal(SIGPROF, on_prof);
    *g_prog = ~0ull;
    setup();
    u64 ran = 0;
    for(u64 i = from; i < to; ++i) {
        *g_prog = i; g_inlen = 0;
        arm(g_limit);
        i64 l0 = alloc::live(), c0 = alloc::iconv_live();
        size_t h0 = g_hn; g_skipped = false;
        bool ok = one(i); if(!g_skipped) ++ran;
        if(g_hn != h0 && g_nsamples == 0 && (i + 1 == to || i >= from + 3)) sample(strf("case %llu: input of %zu bytes, beginning %s", static_cast<unsigned long long>(i), g_inlen, hexs(Bytes(g_in ? g_in : "", g_inlen), 300).c_str()));
        if(ok && alloc::g_track && (alloc::live() != l0 || alloc::iconv_live() != c0)) {
            // lazily initialised caches also change the balance: a leak repeats
            arm(g_limit); bool a = one(i);
            i64 l1 = alloc::live(), c1 = alloc::iconv_live();
            arm(g_limit); a = one(i) && a;
            if(a && (alloc::live() > l1 || alloc::iconv_live() > c1)) {
                std::string m = strf("repeating the case leaves %lld more live blocks and %lld more conversion handles each time", static_cast<long long>(alloc::live() - l1), static_cast<long long>(alloc::iconv_live() - c1));
                violation(i, "leak", m.c_str());
            }
        }
        arm(0);
    }
    *g_prog = ~0ull - 1;
    fprintf(g_out, "{\"t\":\"end\",\"ran\":%llu,\"counts\":{", static_cast<unsigned long long>(ran));
    for(int i = 0; i < g_ncounts; ++i) { if(i) fputc(',', g_out); jstr(g_out, g_counts[i].n); fprintf(g_out, ":%llu", static_cast<unsigned long long>(g_counts[i].v)); }
    fprintf(g_out, "},\"samples\":[");
    for(int i = 0; i < g_nsamples; ++i) { if(i) fputc(',', g_out); jstr(g_out, g_samples[i]); }
    fprintf(g_out, "]}\n"); fflush(g_out);
    if(hashes) { FILE* f = fopen(hashes, "wb"); if(f) { fwrite(g_hash, 8, g_hn, f); fclose(f); } }
    return 0;
}
