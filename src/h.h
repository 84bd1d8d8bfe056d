// Harness framework: seeded randomness, violation reporting, allocation monitor, case loop.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <exception>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;
typedef std::string Bytes;

struct Rng {
    u64 s[4];
    explicit Rng(u64 seed = 1) { reseed(seed); }
    static u64 mix(u64& x) { x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    void reseed(u64 seed) { for(int i = 0; i < 4; ++i) s[i] = mix(seed); }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); } // inclusive
    bool chance(int percent) { return below(100) < static_cast<u64>(percent); }
    u32 u32v() { return static_cast<u32>(next()); }
    Bytes bytes(size_t n) { Bytes r(n, '\0'); for(size_t i = 0; i < n; ++i) r[i] = static_cast<char>(next() >> 32); return r; }
    // non-zero bytes
    Bytes nzbytes(size_t n) { Bytes r(n, '\0'); for(size_t i = 0; i < n; ++i) r[i] = static_cast<char>(1 + below(255)); return r; }
    u32 edge32();   // boundary-biased 32-bit value
    u64 edge64();
    std::string ident(size_t minlen, size_t maxlen); // printable name
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> void shuffle(std::vector<T>& v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct CaseSkip {};   // generated case cannot be built; not counted as evaluated
struct CaseFail { std::string key, msg; };
// Ends the current case as a violation. key identifies the kind of failure (stable), msg explains it.
[[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, key, ...) do { if(!(cond)) fail(key, __VA_ARGS__); } while(0)

void count(const char* name, u64 n = 1);      // event counter (name must be a literal)
void nontrivial(u64 hash);                     // current case is non-trivial; hash identifies it
void sample(const std::string& text);          // keep a few written-out cases
void note_input(const std::string& bytes);     // remembered and saved with a violation of this case
u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);
inline u64 fnv(const Bytes& b, u64 h = 1469598103934665603ull) { return fnv(b.data(), b.size(), h); }
std::string hexs(const Bytes& b, size_t max = 64);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Allocation monitor (global operator new/delete are replaced)
extern thread_local bool g_mute;   // set in threads: reporting is for the main thread only
namespace alloc {
extern thread_local u64 jitter;
extern u64 single_cap, total_cap;   // larger requests throw std::bad_alloc
extern int fill;                    // -1 none, else byte pattern for fresh blocks
i64 live();                         // live operator-new blocks
u64 allocs();                       // allocations so far
void fail_at(u64 nth);              // the nth allocation from now (1-based) throws; 0 = never
u64 stopped();                      // allocations made when an armed failure was last called off
bool failed();                      // an injected failure happened since fail_at
i64 iconv_live();
u64 iconv_opens();
void iconv_fail_at(u64 nth);
void track_leaks(bool on);          // per-case balance check by the case loop
}

// provided by each driver
extern const char* const PROPERTY;
extern const char* const RULE;
u64 num_cases(bool thorough);
void setup();
void run_case(Rng& r, u64 idx);
extern bool g_thorough;
extern u64 g_seed;
