// Checksum and entropy against their definitions
#include "../lib.h"
#include "pe_lib/pe_checksum.h"
#include "pe_lib/entropy.h"
#include <math.h>
extern const char* const PROPERTY = "C24";
extern const char* const RULE = "each case computes the checksum of a generated, raw or shipped file (all lengths modulo 4, carry-heavy contents, any stored checksum) and entropies of buffers, streams, sections and images, and compares them with independent computations; non-trivial: at least 64 bytes with a valid DOS header; distinct by content hash";
u64 num_cases(bool t) { return t ? 1500000 : 60000; }
void setup() { realFiles(); }
static double H(const Bytes& b) {
    u64 n[256] = {0}; for(unsigned char c : b) ++n[c];
    long double e = 0; for(u64 k : n) if(k) { long double p = static_cast<long double>(k) / b.size(); e -= p * log2l(p); }
    return static_cast<double>(e);
}
static void ent(const char* what, double got, const Bytes& b) {
    double w = b.empty() ? 0 : H(b);
    CHECK(got == got && fabs(got - w) < 1e-9, "entropy-wrong", "%s of %zu bytes: got %.17g, expected %.17g", what, b.size(), got, w);
    CHECK(got >= -1e-12 && got <= 8 + 1e-12, "entropy-range", "%s of %zu bytes: %.17g", what, b.size(), got);
    count("entropies");
}
static Bytes blob(Rng& r, size_t n) {
    switch(r.below(6)) {
    case 0: return Bytes(n, static_cast<char>(r.below(256)));
    case 1: return Bytes(n, '\xFF');
    case 2: { Bytes b(n, '\0'); for(auto& c : b) c = static_cast<char>(0xF0 + r.below(16)); return b; }
    case 3: { Bytes b(n, '\0'); for(auto& c : b) c = r.chance(50) ? '\xFF' : '\0'; return b; }
    case 4: { Bytes b(n, '\0'); for(size_t i = 0; i < n; ++i) b[i] = static_cast<char>(i); return b; }
    default: return r.bytes(n);
    }
}
static size_t len(Rng& r) { switch(r.below(8)) { case 0: return r.below(5); case 1: return 250 + r.below(20); case 2: return 4090 + r.below(12); case 3: return 65530 + r.below(12); case 4: return 1 + r.below(20000); default: return 1 + r.below(2000); } }
static void ck(Rng& r, const Bytes& f, const char* what) {
    u32 lf = rd32(f, 60);
    std::stringstream s(f, std::ios::in | std::ios::out | std::ios::binary);
    u32 got = 0, want = refChecksum(f, lf);
    mustWork("checksum-refused", what, [&] { got = calculate_checksum(s); });
    CHECK(got == want, "checksum-wrong", "%s: %zu bytes, PE header at %x: got %x, expected %x", what, f.size(), lf, got, want);
    count("checksums"); count(f.size() % 4 ? "lengths-not-multiple-of-4" : "lengths-multiple-of-4");
    if(static_cast<u64>(lf) + 92 <= f.size()) { // independent of and verifying after storing
        Bytes g = f; wrn(g, lf + 88, r.chance(50) ? got : r.u32v(), 4);
        std::istringstream t(g); u32 again = calculate_checksum(t);
        CHECK(again == got, "checksum-depends-on-stored", "%s: %x stored %x computed before %x", what, again, rd32(g, lf + 88), got);
        count("stored-and-verified");
    }
}
void run_case(Rng& r, u64 idx) {
    const auto& rf = realFiles();
    if(idx < rf.size()) {
        const Bytes& f = rf[idx].second; note_input(f); ck(r, f, rf[idx].first.c_str());
        pe_base p = openPe(f); Bytes all; for(const section& s : p.get_image_sections()) all += s.get_raw_data();
        ent("image", entropy_calculator::calculate_entropy(p), all);
        nontrivial(fnv(f)); return;
    }
    if(idx % 4 == 0) { // raw streams with a DOS header only
        Bytes f = blob(r, 64 + len(r)); f[0] = 'M'; f[1] = 'Z';
        u32 lf; switch(r.below(4)) { case 0: lf = static_cast<u32>(f.size() & ~3ull); break; case 1: lf = r.chance(50) ? 0x7FFFFFFC : 0; break; default: lf = 4 * static_cast<u32>(r.below(f.size() / 4 + 2)); }
        // keep the header field itself outside the skipped dword's ambiguity
        wrn(f, 60, lf, 4);
        if(r.chance(40) && f.size() >= 72) { // the running sum reaches exactly 2^32 (or just not) at some dword
            u64 at = 64 + 4 * r.below((f.size() - 64) / 4), skip = static_cast<u64>(lf) + 88, sum = 0;
            if(at != skip) { if(r.chance(60)) for(u64 i = at + 4; i < f.size(); ++i) f[i] = 0; if(r.chance(40)) for(u64 i = 64; i < at; ++i) f[i] = 0; for(u64 i = 0; i + 4 <= at; i += 4) if(i != skip) { sum += rd32(f, i); sum = (sum & 0xFFFFFFFF) + (sum >> 32); } if(at + 4 <= f.size() && sum) { wrn(f, at, 0x100000000ull - sum - (r.chance(20) ? 1 : 0), 4); count("carry-boundaries"); } }
        }
        note_input(f);
        ck(r, f, "raw stream"); nontrivial(fnv(f));
        Bytes sh = f.substr(0, r.below(64)); std::istringstream t(sh);
        mustRefuse("checksum-short-accepted", "stream shorter than a DOS header", [&] { calculate_checksum(t); });
        return;
    }
    if(idx % 4 == 1) {
        Bytes b = blob(r, len(r)); note_input(b); nontrivial(fnv(b));
        if(b.empty()) mustRefuse("entropy-empty-accepted", "entropy of an empty buffer", [&] { entropy_calculator::calculate_entropy(b.data(), 0); });
        else ent("buffer", entropy_calculator::calculate_entropy(b.data(), b.size()), b);
        size_t at = r.chance(20) ? b.size() : r.below(b.size() + 1);
        std::istringstream s(b); s.seekg(static_cast<std::streamoff>(at));
        if(at == b.size()) mustRefuse("entropy-empty-accepted", "entropy at the end of a stream", [&] { entropy_calculator::calculate_entropy(s); });
        else ent("rest of stream", entropy_calculator::calculate_entropy(s), b.substr(at));
        return;
    }
    GenOpt o; Img im = genImg(r, o);
    for(RSec& s : im.secs) if(s.rawsize) s.data = blob(r, s.rawsize);
    im.overlay = r.bytes(r.below(9));
    Bytes f = im.file(); note_input(f); nontrivial(fnv(f));
    ck(r, f, "image");
    pe_base p = openPe(f);
    Bytes all;
    for(section& s : p.get_image_sections()) {
        all += s.get_raw_data();
        if(s.get_raw_data().empty()) mustRefuse("entropy-empty-accepted", "entropy of an empty section", [&] { entropy_calculator::calculate_entropy(s); });
        else ent("section", entropy_calculator::calculate_entropy(s), s.get_raw_data());
    }
    if(!all.empty()) ent("image", entropy_calculator::calculate_entropy(p), all);
    else { double e = -1; try { e = entropy_calculator::calculate_entropy(p); } catch(const pe_exception&) { e = 0; } CHECK(e == 0, "entropy-range", "image without data: %g", e); }
    if(im.secs.empty() || im.h[SIZEHDR] > 0x4000) return;
    // what a tool does: rebuild, compute, store, rebuild, verify
    Bytes a, b; try { a = writePe(p); } catch(const pe_exception&) { return; }
    std::istringstream s(a); u32 c = calculate_checksum(s);
    p.set_checksum(c); b = writePe(p);
    Parsed q = parse(b, false);
    CHECK(q.ok() && q.im.h[CHK] == c, "checksum-not-stored", "stored %llx", (unsigned long long)q.im.h[CHK]);
    std::istringstream s2(b); EQ(calculate_checksum(s2), c, "checksum-does-not-verify", "checksum of the file that stores it");
    EQ(refChecksum(b, q.lfanew), c, "checksum-does-not-verify", "standard checksum of the file that stores it");
    count("written-and-verified");
}
