// Address conversions
#include "../lib.h"
#include <algorithm>
extern const char* const PROPERTY = "C08";
extern const char* const RULE = "each case opens one generated image (extreme bases included) and converts boundary and random addresses and offsets in every direction, comparing with values computed from the model; non-trivial: image with at least one section; distinct by image and address set hash";
u64 num_cases(bool t) { return t ? 1200000 : 60000; }
void setup() {}

// r: 0 refused, 1 value
template<class F> static bool got(F f, u64& v, const char* what) {
    try { v = f(); return true; }
    catch(const pe_exception&) { return false; }
    catch(const std::exception& e) { fail("wrong-exception", "%s: %s", what, e.what()); }
}
#define EXPECT(call, defined, want, key, ...) do { u64 v__ = 0; bool g__ = got([&]() -> u64 { return call; }, v__, #call); count("conversions"); std::string c__ = strf(__VA_ARGS__); \
    if(defined) { if(!g__) fail(key, #call " refused for %s (%s)", c__.c_str(), im.describe().c_str()); if(v__ != static_cast<u64>(want)) fail(key, #call " gives %llx, expected %llx for %s (%s)", (unsigned long long)v__, (unsigned long long)(want), c__.c_str(), im.describe().c_str()); } \
    else if(g__) fail(key, #call " gives %llx instead of refusing %s (%s)", (unsigned long long)v__, c__.c_str(), im.describe().c_str()); } while(0)

void run_case(Rng& r, u64 idx) {
    GenOpt o; o.maxSecData = 600; o.zeroVsize = true;
    Img im = genImg(r, o);
    if(!im.secs.empty() && r.chance(8)) { im.secs.back().vsize = 0x80000000u - (r.chance(40) ? 0 : static_cast<u32>(r.below(r.chance(50) ? 0x20000 : 0x40000000))); Rng r2(idx); layout(im, r2, false); if(static_cast<u64>(im.secs.back().va) + im.secs.back().vsize + im.h[SA] > 0xFFFFFFFFull) throw CaseSkip(); count("giant-sections"); }
    switch(r.below(6)) {
    case 0: im.h[IMGBASE] = 0; break;
    case 1: im.h[IMGBASE] = im.pe64 ? 0ull - (0x1000 * r.below(64) + r.below(2)) : 0xFFFF0000u + 0x1000 * r.below(16); break;
    case 2: im.h[IMGBASE] = im.pe64 ? 0x140000000ull : 0x10000000; break;
    case 3: im.h[IMGBASE] = im.pe64 ? 0x100000000ull - 0x1000 * r.below(40) : 0x80000000u; break;
    case 4: im.h[IMGBASE] = im.pe64 ? r.edge64() : r.edge32(); break;
    }
    if(!im.secs.empty() && im.ndirs()) for(u32 i = 0; i < im.ndirs(); ++i) if(i != D_DEBUG) { const RSec& s = r.pick(im.secs); im.dir[i][0] = r.chance(70) ? s.va + static_cast<u32>(r.below(s.span(static_cast<u32>(im.h[SA])))) : r.edge32(); }
    if(r.chance(12)) { u64 lim = im.secs.empty() ? im.h[SIZEHDR] + 5000 : im.secs[0].va; if(lim > im.h[SIZEHDR]) { im.h[SIZEHDR] += r.chance(40) ? lim - im.h[SIZEHDR] : r.below(lim - im.h[SIZEHDR] + 1); count("headers-reaching-over-section-data"); } }
    Bytes f = im.file(); note_input(f);
    pe_base p = openPe(f);
    const pe_base& cp = p;
    u32 sa = static_cast<u32>(im.h[SA]); u64 base = im.h[IMGBASE]; u64 maxva = im.pe64 ? ~0ull : 0xFFFFFFFFull;
    std::vector<u32> rvas, offs;
    for(const RSec& s : im.secs) {
        u32 e = s.va + s.span(sa);
        for(u32 x : {s.va - 1, s.va, s.va + 1, s.va + s.rawsize - 1, s.va + s.rawsize, e - 1, e, e + 1}) rvas.push_back(x);
        if(s.rawsize) for(u32 x : {s.rawptr - 1, s.rawptr, s.rawptr + 1, s.rawptr + s.rawsize - 1, s.rawptr + s.rawsize}) offs.push_back(x);
        if(rvas.size() > 120) break;
    }
    for(u32 x : {0u, 1u, static_cast<u32>(im.h[SIZEHDR]) - 1, static_cast<u32>(im.h[SIZEHDR]), 0xFFFFFFFFu, 0x7FFFFFFFu, static_cast<u32>(im.h[SIZEIMG])}) { rvas.push_back(x); offs.push_back(x); }
    for(int i = 0; i < 6; ++i) { rvas.push_back(static_cast<u32>(r.below(im.h[SIZEIMG] + 0x1000))); rvas.push_back(r.edge32()); offs.push_back(static_cast<u32>(r.below(f.size() + 100))); offs.push_back(r.edge32()); }
    u64 hh = fnv(f);
    for(u32 a : rvas) {
        hh = hh * 31 + a;
        const RSec* s = im.secAt(a); size_t si = s ? s - &im.secs[0] : 0;
        u64 va = base + a; bool fits = va >= base && va <= maxva;
        EXPECT(p.rva_to_va_64(a), fits, va, "rva-to-va", "rva %x", a);
        { bool fit32 = base <= 0xFFFFFFFFull && va >= base && va <= 0xFFFFFFFFull; EXPECT(p.rva_to_va_32(a), fit32, va, "rva-to-va", "rva %x", a);
          u32 o32 = 0; u64 o64 = 0;
          EXPECT((p.rva_to_va(a, o32), o32), fit32, va, "rva-to-va", "rva %x", a); EXPECT((p.rva_to_va(a, o64), o64), fits, va, "rva-to-va", "rva %x", a);
          if(fit32) { EXPECT(p.va_to_rva(static_cast<u32>(va)), true, a, "va-to-rva", "va %llx", (unsigned long long)va); EXPECT(p.va_to_rva(static_cast<u32>(va), false), true, a, "va-to-rva", "va %llx", (unsigned long long)va); } }
        if(fits) { EXPECT(p.va_to_rva(va), true, a, "va-to-rva", "va %llx", (unsigned long long)va); EXPECT(p.va_to_rva(va, false), true, a, "va-to-rva", "va %llx", (unsigned long long)va);
            EXPECT(&p.section_from_va(va) - &p.get_image_sections()[0], s != 0, si, "section-from-va", "va %llx", (unsigned long long)va);
            EXPECT(&cp.section_from_va(va) - &cp.get_image_sections()[0], s != 0, si, "section-from-va", "va %llx", (unsigned long long)va);
            if(va <= 0xFFFFFFFFull) { EXPECT(&p.section_from_va(static_cast<u32>(va)) - &p.get_image_sections()[0], s != 0, si, "section-from-va", "va %llx", (unsigned long long)va); EXPECT(&cp.section_from_va(static_cast<u32>(va)) - &cp.get_image_sections()[0], s != 0, si, "section-from-va", "va %llx", (unsigned long long)va); } }
        EXPECT(&p.section_from_rva(a) - &p.get_image_sections()[0], s != 0, si, "section-from-rva", "rva %x", a);
        EXPECT(&cp.section_from_rva(a) - &cp.get_image_sections()[0], s != 0, si, "section-from-rva", "rva %x", a);
        EXPECT(cp.section_and_offset_from_rva(a).first, s != 0, a - s->va, "section-offset", "rva %x", a);
        EXPECT(cp.section_and_offset_from_rva(a).second - &cp.get_image_sections()[0], s != 0, si, "section-offset", "rva %x", a);
        if(s) EXPECT(pe_base::rva_from_section_offset(cp.get_image_sections()[si], a - s->va), true, a, "section-offset", "offset %x", a - s->va);
        if(a < im.h[SIZEHDR]) EXPECT(p.rva_to_file_offset(a), true, a, "rva-to-offset", "header rva %x", a);
        else if(!s) EXPECT(p.rva_to_file_offset(a), false, 0, "rva-to-offset", "rva %x", a);
        else if(a - s->va < s->rawsize) {
            u32 off = s->rawptr + (a - s->va);
            EXPECT(p.rva_to_file_offset(a), true, off, "rva-to-offset", "rva %x", a);
            EXPECT(p.file_offset_to_rva(off), true, off < im.h[SIZEHDR] ? off : a, "offset-to-rva", "offset %x", off);
            CHECK(f[off] == s->data[a - s->va], "harness", "model disagrees with itself");
        }
    }
    for(u32 a : offs) {
        hh = hh * 31 + a;
        const RSec* s = 0; for(const RSec& x : im.secs) if(x.rawsize && a >= x.rawptr && a < static_cast<u64>(x.rawptr) + x.rawsize) { s = &x; break; }
        size_t si = s ? s - &im.secs[0] : 0;
        EXPECT(&p.section_from_file_offset(a) - &p.get_image_sections()[0], s != 0, si, "section-from-offset", "offset %x", a);
        EXPECT(&cp.section_from_file_offset(a) - &cp.get_image_sections()[0], s != 0, si, "section-from-offset", "offset %x", a);
        if(a < im.h[SIZEHDR]) EXPECT(p.file_offset_to_rva(a), true, a, "offset-to-rva", "header offset %x", a);
        else { EXPECT(p.file_offset_to_rva(a), s != 0, a - s->rawptr + s->va, "offset-to-rva", "offset %x", a);
            if(s) EXPECT(p.rva_to_file_offset(p.file_offset_to_rva(a)), true, a, "offset-to-rva", "round trip of offset %x", a); }
    }
    // addresses outside the 4 GB window above the base, or outside the image's width
    for(int i = 0; i < 6; ++i) {
        u64 va = i == 0 ? base - 1 : i == 1 ? base + 0x100000000ull : i == 2 ? base + 0xFFFFFFFFull : r.edge64();
        u64 d = va - base; bool ok = va >= base && d <= 0xFFFFFFFFull && va <= maxva;
        if(va < base && d <= 0xFFFFFFFFull) continue; // wraps around the 64-bit address space
        EXPECT(p.va_to_rva(va), ok, d, "va-to-rva", "va %llx", (unsigned long long)va);
        EXPECT(p.va_to_rva(va, false), true, static_cast<u32>(d), "va-to-rva", "unchecked va %llx", (unsigned long long)va);
        u32 v32 = static_cast<u32>(va); u64 d32 = v32 - base;
        if(!(v32 < base && d32 <= 0xFFFFFFFFull)) EXPECT(p.va_to_rva(v32), v32 >= base, d32, "va-to-rva", "va %x", v32);
    }
    for(u32 i = 0; i < 17; ++i) {
        bool have = i < im.ndirs(); const RSec* s = have ? im.secAt(im.dir[i][0]) : 0;
        EXPECT(&p.section_from_directory(i) - &p.get_image_sections()[0], s != 0, s - &im.secs[0], "section-from-directory", "directory %u", i);
        EXPECT(&cp.section_from_directory(i) - &cp.get_image_sections()[0], s != 0, s - &im.secs[0], "section-from-directory", "directory %u", i);
    }
    if(!im.secs.empty()) { nontrivial(hh); if(idx < 50) sample(im.describe()); }
}
