// Reading leaves the stream usable, at its position, with its exception mask
#include "../lib.h"
#include "pe_lib/pe_checksum.h"
#include "pe_lib/entropy.h"
extern const char* const PROPERTY = "C25";
extern const char* const RULE = "each case runs one reading operation (kind detection, opening as file or dump, checksum, entropy) on a stream over a good, damaged, truncated or random file, with any initial position and exception mask and optionally a read fault (end of data or throwing buffer) at a chosen byte, then checks position, mask, state and further reading; non-trivial: stream of at least one byte; distinct by content, operation, position, mask and fault";
u64 num_cases(bool t) { return t ? 2000000 : 80000; }
void setup() {}
struct Buf : std::streambuf {
    Bytes d; u64 failAt; int mode; bool armed; size_t pos; u64 served; bool hit;
    Buf(const Bytes& b) : d(b), failAt(~0ull), mode(0), armed(false), pos(0), served(0), hit(false) {}
    int_type trouble() { hit = true; if(mode == 2) throw std::runtime_error("device error"); return traits_type::eof(); }
    int_type underflow() override { if(pos >= d.size()) return traits_type::eof(); if(armed && mode && served >= failAt) return trouble(); return static_cast<unsigned char>(d[pos]); }
    int_type uflow() override { int_type c = underflow(); if(c != traits_type::eof()) { ++pos; ++served; } return c; }
    int_type pbackfail(int_type) override { if(!pos) return traits_type::eof(); --pos; return static_cast<unsigned char>(d[pos]); }
    std::streamsize xsgetn(char* p, std::streamsize n) override {
        std::streamsize k = 0;
        while(k < n && pos < d.size()) { if(armed && mode && served >= failAt) { if(mode == 2 || k == 0) { if(trouble() == traits_type::eof()) break; } break; } p[k++] = d[pos++]; ++served; }
        return k;
    }
    std::streamsize showmanyc() override { return static_cast<std::streamsize>(d.size() - pos); }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override {
        off_type b = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? static_cast<off_type>(pos) : static_cast<off_type>(d.size());
        off_type t = b + o; if(t < 0 || t > static_cast<off_type>(d.size())) return pos_type(off_type(-1));
        pos = static_cast<size_t>(t); return pos_type(t);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
static Bytes content(Rng& r) {
    if(r.chance(10)) return r.bytes(r.below(300));
    if(r.chance(3)) return Bytes();
    GenOpt o; o.maxSecs = 3; o.maxSecData = 600; Img im = genImg(r, o);
    Bytes f = im.file();
    switch(r.below(6)) {
    case 0: return f.substr(0, r.below(f.size() + 1));
    case 1: for(u64 k = r.range(1, 6); k; --k) f[r.below(std::min<u64>(f.size(), im.sectabEnd()))] = static_cast<char>(r.u32v()); return f;
    case 2: wrn(f, 60, r.chance(50) ? r.edge32() : r.below(f.size() + 8), 4); return f;
    default: return f;
    }
}
void run_case(Rng& r, u64 idx) {
    Bytes f = content(r); note_input(f);
    bool own = r.chance(60);
    Buf fb(f); std::istringstream ss(f); std::istream ps(&fb);
    std::istream& s = own ? ps : static_cast<std::istream&>(ss);
    size_t at = r.chance(40) ? 0 : r.chance(20) ? f.size() : r.below(f.size() + 1);
    if(own) { fb.mode = static_cast<int>(r.below(3)); if(fb.mode) fb.failAt = r.chance(30) ? r.below(200) : r.below(f.size() + 1); }
    s.seekg(static_cast<std::streamoff>(at));
    static const std::ios::iostate masks[] = {std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::eofbit, std::ios::badbit | std::ios::failbit, std::ios::badbit | std::ios::failbit | std::ios::eofbit};
    std::ios::iostate mask = masks[r.below(6)];
    bool eofState = r.chance(10) && !(mask & (std::ios::eofbit)); // the caller just read to the end
    if(eofState) { s.setstate(std::ios::eofbit); }
    s.exceptions(mask);
    u32 op = static_cast<u32>(r.below(7)); const char* names[] = {"get_pe_type", "create_pe", "create_pe (dump)", "calculate_checksum", "calculate_entropy", "pe_base 32", "pe_base 64"};
    fb.armed = true; fb.served = 0;
    bool ok = true;
    try {
        switch(op) {
        case 0: pe_base::get_pe_type(s); break;
        case 1: { pe_base p(pe_factory::create_pe(s)); break; }
        case 2: { pe_base p(pe_factory::create_pe(s, true)); break; }
        case 3: calculate_checksum(s); break;
        case 4: entropy_calculator::calculate_entropy(s); break;
        case 5: { pe_base p(s, pe_properties_32(), true); break; }
        case 6: { pe_base p(s, pe_properties_64(), true); break; }
        }
    }
    catch(const pe_exception&) { ok = false; }
    catch(const std::bad_alloc&) { ok = false; }
    catch(const std::exception& e) { fail("wrong-exception", "%s failed with %s (mask %d, fault mode %d, start %zu)", names[op], e.what(), (int)mask, own ? fb.mode : 0, at); }
    fb.armed = false;
    std::string ctx = strf("%s %s, mask %d, fault mode %d hit %d, start %zu of %zu, eof before %d", names[op], ok ? "succeeded" : "failed", (int)mask, own ? fb.mode : 0, fb.hit, at, f.size(), eofState);
    EQ((int)s.exceptions(), (int)mask, "mask-changed", "exception mask after %s", ctx.c_str());
    CHECK(!s.bad() && !s.fail(), "stream-failed", "stream state %d after %s", (int)s.rdstate(), ctx.c_str());
    s.exceptions(std::ios::goodbit);
    CHECK(s.good(), "stream-not-good", "stream state %d after %s", (int)s.rdstate(), ctx.c_str());
    std::streamoff t = s.tellg();
    CHECK(t == static_cast<std::streamoff>(at), "position-changed", "position %lld after %s", (long long)t, ctx.c_str());
    int c = s.get();
    if(at < f.size()) CHECK(c == static_cast<unsigned char>(f[at]), "next-byte-wrong", "next byte %d after %s", c, ctx.c_str());
    else CHECK(c == EOF, "next-byte-wrong", "byte past the end %d after %s", c, ctx.c_str());
    count(ok ? "operations-succeeded" : "operations-failed"); if(fb.hit) count("faults-injected");
    if(!f.empty()) nontrivial(fnv(f, op * 1315423911u + at * 97 + mask * 7 + (own ? fb.mode * 131071 + fb.failAt : 0)));
    if(idx < 20) sample(ctx);
}
