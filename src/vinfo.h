// Version information: model, generator and an encoder independent of the library
#pragma once
#include "gens.h"
#include <map>
typedef std::map<std::u16string, std::u16string> Tab;
typedef std::map<std::u16string, Tab> Strs;
typedef std::multimap<u16, u16> Trans;
struct Info { bool fixed; u32 f[13]; Strs s; Trans t; };   // f: the thirteen words of the fixed part
static const u16 NFIX = 13;
static inline void p16(Bytes& b, u32 v) { b += static_cast<char>(v); b += static_cast<char>(v >> 8); }
static inline void p32(Bytes& b, u32 v) { p16(b, v); p16(b, v >> 16); }
static inline void str16(Bytes& b, const std::u16string& s, bool z = true) { for(char16_t c : s) p16(b, c); if(z) p16(b, 0); }
static inline void pad4(Bytes& b) { while(b.size() % 4) b += '\0'; }
static inline void set16(Bytes& b, size_t o, u32 v) { b[o] = static_cast<char>(v); b[o + 1] = static_cast<char>(v >> 8); }
static inline std::u16string hex8(u32 v, bool up) { char s[9]; snprintf(s, sizeof s, up ? "%08X" : "%08x", v); std::u16string o; for(int i = 0; i < 8; ++i) o += static_cast<char16_t>(s[i]); return o; }
static const char16_t* const PROPS[] = {u"CompanyName", u"FileDescription", u"FileVersion", u"InternalName", u"LegalCopyright", u"OriginalFilename", u"ProductName", u"ProductVersion", u"Comments", u"companyname", u""};
static inline u32 genTr(Rng& r) { return r.chance(40) ? 0x041904b0 : r.chance(50) ? r.pick(std::vector<u32>{0x040904b0, 0x040904e4, 0x040704b0, 0x000004b0, 0x04190000, 0, 0xFFFFFFFFu, 0x0419abcd}) : r.u32v(); }
static inline std::u16string val(Rng& r) { return genName(r, 0, r.chance(3) ? 2000 : 20, r.chance(30)); }
static inline Info gen(Rng& r, bool raw) {
    Info i; i.fixed = true; i.f[0] = 0xFEEF04BD; i.f[1] = 0x10000; for(int k = 2; k < NFIX; ++k) i.f[k] = r.edge32(); if(!raw) i.f[6] = 0x3F;
    for(u64 n = r.below(4); n; --n) { Tab& t = i.s[r.chance(90) ? hex8(genTr(r), r.chance(20)) : genName(r, 0, 12, false)]; for(u64 k = r.below(r.chance(10) ? 20 : 5); k; --k) t[r.chance(70) ? std::u16string(PROPS[r.below(11)]) : genName(r, 0, 15, r.chance(20))] = val(r); }
    for(u64 n = r.below(4); n; --n) { u32 v = genTr(r); i.t.insert(std::make_pair(static_cast<u16>(v >> 16), static_cast<u16>(v))); }
    if(r.chance(3)) { i.s.clear(); i.s[r.chance(50) ? hex8(genTr(r), false) : u""]; if(r.chance(70)) i.s.begin()->second[r.chance(70) ? u"" : u"A"] = u""; }   // the shortest blocks
    return i;
}
// ---- independent encoder
static inline size_t open(Bytes& b, const std::u16string& key, u32 vl, u32 type) { pad4(b); size_t at = b.size(); p16(b, 0); p16(b, vl); p16(b, type); str16(b, key); return at; }
static inline void close(Bytes& b, size_t at, bool padded) { if(padded) pad4(b); set16(b, at, static_cast<u32>(b.size() - at)); }
static inline Bytes encode(Rng& r, const Info& i, size_t& lastValueEnd) {
    bool padded = r.chance(50), noZero = r.chance(15), z0 = r.chance(50); Bytes b; u32 pt = r.chance(80) ? 1 : 0; lastValueEnd = 0;
    size_t root = open(b, u"VS_VERSION_INFO", i.fixed ? 52 : 0, 0); pad4(b); if(i.fixed) for(u32 x : i.f) p32(b, x);
    auto vars = [&] { if(i.t.empty() && r.chance(50)) return; size_t v = open(b, u"VarFileInfo", 0, pt); pad4(b); for(u64 k = r.chance(25) ? 1 + r.below(3) : 0; k; --k) { u32 n = 2 * static_cast<u32>(r.below(5)); size_t f = open(b, r.chance(50) ? u"Foreign" : u"Other", n, 0); pad4(b); for(u32 z = 0; z < n; ++z) b += '\7'; close(b, f, padded); }
        if(i.t.size()) { size_t t = open(b, u"Translation", static_cast<u32>(4 * i.t.size()), 0); pad4(b); for(auto& x : i.t) { p16(b, x.first); p16(b, x.second); } close(b, t, padded); lastValueEnd = b.size(); } close(b, v, padded); };
    auto strings = [&](Strs::const_iterator a, Strs::const_iterator e) { size_t s = open(b, u"StringFileInfo", 0, pt); pad4(b);
        for(; a != e; ++a) { size_t t = open(b, a->first, 0, pt); pad4(b); for(auto& kv : a->second) { bool none = kv.second.empty() && z0, nz = noZero && kv.second.size(); size_t q = open(b, kv.first, none ? 0 : static_cast<u32>(kv.second.size() + !nz), pt); if(!none) { pad4(b); str16(b, kv.second, !nz); lastValueEnd = b.size(); if(nz) lastValueEnd = b.size(); } close(b, q, padded); } close(b, t, padded); }
        close(b, s, padded); };
    bool first = r.chance(30); if(first) vars();
    if(i.s.size()) { if(i.s.size() > 1 && r.chance(15)) { auto m = i.s.begin(); ++m; strings(i.s.begin(), m); strings(m, i.s.end()); } else strings(i.s.begin(), i.s.end()); } else if(r.chance(30)) strings(i.s.end(), i.s.end());
    if(!first) vars();
    close(b, root, true); return b;
}
