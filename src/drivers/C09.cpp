// Access by address, file view and mapped view interleaved
#include "../lib.h"
#include <algorithm>
extern const char* const PROPERTY = "C09";
extern const char* const RULE = "each case opens one generated image and performs a random interleaving of typed reads, length queries, pointer accesses, view switches and writes through the raw view, each compared with a byte-level model; non-trivial: image with section data; distinct by image and operation trace hash";
u64 num_cases(bool t) { return t ? 800000 : 40000; }
void setup() {}
struct B3 { char c[3]; }; struct B40 { char c[40]; }; struct B300 { char c[300]; };

template<class F> static bool got(F f) {
    try { f(); return true; } catch(const pe_exception&) { return false; }
    catch(const CaseFail&) { throw; } catch(const std::exception& e) { fail("wrong-exception", "%s", e.what()); }
}
struct View9 { pe_base& p; Img& im; Bytes hdr; u32 sa; std::vector<u32> span; };
static Bytes view(View9& c, size_t i, bool virt) { Bytes b = c.im.secs[i].data; if(virt && b.size() < c.span[i]) b.resize(c.span[i], '\0'); return b; }
static int secIdx(View9& c, u32 rva) { for(size_t i = 0; i < c.im.secs.size(); ++i) if(rva >= c.im.secs[i].va && rva - c.im.secs[i].va < c.span[i]) return static_cast<int>(i); return -1; }

template<class T> static void typed(View9& c, Rng& r, u32 rva, bool virt, bool hd) {
    const pe_base& p = c.p; section_data_type t = virt ? section_data_virtual : section_data_raw;
    int i = secIdx(c, rva); Bytes want; bool ok = false;
    if(hd && static_cast<u64>(rva) + sizeof(T) <= c.hdr.size()) { ok = true; want = c.hdr.substr(rva, sizeof(T)); }
    else if(i >= 0) { Bytes v = view(c, i, virt); u64 o = rva - c.im.secs[i].va; if(o + sizeof(T) <= v.size()) { ok = true; want = v.substr(o, sizeof(T)); } }
    T x; u64 va = c.im.h[IMGBASE] + rva; int how = static_cast<int>(r.below(4));
    if(how == 3 && va > 0xFFFFFFFFull) how = 2;
    bool secForm = i >= 0 && r.chance(30); 
    bool g = got([&] {
        if(secForm) { const section& s = p.get_image_sections()[i]; x = how < 2 ? p.section_data_from_rva<T>(s, rva, t) : how == 2 ? p.section_data_from_va<T>(s, va, t) : p.section_data_from_va<T>(s, static_cast<u32>(va), t); }
        else x = how < 2 ? p.section_data_from_rva<T>(rva, t, hd) : how == 2 ? p.section_data_from_va<T>(va, t, hd) : p.section_data_from_va<T>(static_cast<u32>(va), t, hd);
    });
    if(secForm && hd && static_cast<u64>(rva) + sizeof(T) <= c.hdr.size()) { Bytes v = view(c, i, virt); u64 o = rva - c.im.secs[i].va; ok = o + sizeof(T) <= v.size(); if(ok) want = v.substr(o, sizeof(T)); }
    CHECK(g == ok, "typed-read-extent", "%zu-byte read at rva %x (%s, headers %d, form %d/%d) was %s; %s", sizeof(T), rva, virt ? "mapped" : "file", hd, how, secForm, g ? "accepted" : "refused", c.im.describe().c_str());
    if(g) { Bytes b(reinterpret_cast<const char*>(&x), sizeof(T)); CHECK(b == want, "typed-read-bytes", "%zu-byte read at rva %x (%s, headers %d): %s", sizeof(T), rva, virt ? "mapped" : "file", hd, diffAt(b, want).c_str()); count("typed-reads-ok"); }
    else count("typed-reads-refused");
}
void run_case(Rng& r, u64 idx) {
    GenOpt o; o.maxSecs = 4; o.maxSecData = 900; o.zeroVsize = true;
    Img im = genImg(r, o);
    bool giant = !im.secs.empty() && r.chance(8); // a section as large as they can be: only its file view and lengths are looked at
    if(giant) { im.secs.back().vsize = 0x80000000u - (r.chance(40) ? 0 : static_cast<u32>(r.below(r.chance(50) ? 0x20000 : 0x40000000))); Rng r2(idx); layout(im, r2, false); if(static_cast<u64>(im.secs.back().va) + im.secs.back().vsize + im.h[SA] > 0xFFFFFFFFull) throw CaseSkip(); count("giant-sections"); }
    im.h[IMGBASE] = giant ? 0x10000 : im.pe64 ? (r.chance(50) ? 0x140000000ull : 0x400000) : 0x400000;
    if(r.chance(12)) { u64 lim = im.secs.empty() ? im.h[SIZEHDR] + 5000 : im.secs[0].va; if(lim > im.h[SIZEHDR]) { im.h[SIZEHDR] += r.chance(40) ? lim - im.h[SIZEHDR] : r.below(lim - im.h[SIZEHDR] + 1); count("headers-reaching-over-section-data"); } }
    Bytes f = im.file(); note_input(f);
    pe_base p = openPe(f);
    if(r.chance(10) && !giant) { std::ostringstream o; bool done = false; try { rebuild_pe(p, o, false, true, false); done = true; } catch(const pe_exception&) {} for(size_t k = 0; k < im.secs.size(); ++k) { const section& s = p.get_image_sections()[k]; im.secs[k].rawptr = s.get_pointer_to_raw_data(); } if(done) count("read-after-rebuild"); }
    CHECK(p.get_full_headers_data() == f.substr(0, p.get_full_headers_data().size()), "header-bytes", "%s", diffAt(p.get_full_headers_data(), f.substr(0, p.get_full_headers_data().size())).c_str());
    View9 c = {p, im, p.get_full_headers_data(), static_cast<u32>(im.h[SA]), {}};
    for(const RSec& s : im.secs) c.span.push_back(s.span(c.sa));
    u64 tr = fnv(f); bool any = false; for(const RSec& s : im.secs) any |= !s.data.empty();
    std::vector<u32> pts = {0, 1, static_cast<u32>(c.hdr.size()) - 1, static_cast<u32>(c.hdr.size()), 0xFFFFFFFFu, 0xFFFFFFFEu};
    for(const RSec& s : im.secs) for(u32 x : {s.va, s.va + s.rawsize, s.va + s.span(c.sa)}) pts.push_back(x);
    for(int n = 0; n < 40; ++n) {
        u32 rva = r.pick(pts) + static_cast<u32>(r.below(3) == 0 ? 0 : r.chance(70) ? static_cast<i64>(r.below(48)) - 44 : static_cast<i64>(r.below(2000)) - 1000);
        bool virt = r.chance(50), hd = r.chance(40);
        section_data_type t = virt ? section_data_virtual : section_data_raw;
        u32 op = static_cast<u32>(r.below(16)); if(giant && r.chance(30) && !im.secs.empty()) rva = im.secs.back().va + (r.chance(50) ? 0u : 0x80000000u + static_cast<u32>(r.below(0x2000)) - 0x1000); if(giant && virt && (op < 6 || op > 9) && op < 14) { virt = false; t = section_data_raw; } tr = tr * 1000003 + rva * 64 + op * 4 + virt * 2 + hd;
        u64 va = im.h[IMGBASE] + rva;
        if(va > (im.pe64 ? ~0ull : 0xFFFFFFFFull)) continue;
        int i = secIdx(c, rva); u64 total = i < 0 ? 0 : giant && virt ? c.span[i] : view(c, i, virt).size();
        const pe_base& cp = p;
        switch(op) {
        case 0: typed<u8>(c, r, rva, virt, hd); break;
        case 1: typed<u32>(c, r, rva, virt, hd); break;
        case 2: typed<u64>(c, r, rva, virt, hd); break;
        case 3: typed<B3>(c, r, rva, virt, hd); break;
        case 4: typed<B40>(c, r, rva, virt, hd); break;
        case 5: typed<B300>(c, r, rva, virt, hd); break;
        case 6: { // total length
            u32 v = 0; bool ok = (hd && rva < c.hdr.size()) || i >= 0; u64 want = hd && rva < c.hdr.size() ? c.hdr.size() : total;
            if(virt && i >= 0 && !(hd && rva < c.hdr.size())) want = c.span[i];
            bool g = got([&] { v = r.chance(50) ? p.section_data_length_from_rva(rva, t, hd) : p.section_data_length_from_va(va, t, hd); });
            CHECK(g == ok && (!g || v == want), "total-length", "rva %x %s headers %d: %s %x, expected %s %llx; %s", rva, virt ? "mapped" : "file", hd, g ? "got" : "refused", v, ok ? "value" : "refusal", (unsigned long long)want, im.describe().c_str());
            count("length-queries"); break; }
        case 7: case 8: { // remaining length inside the section containing rva
            u32 in = r.chance(50) ? rva : i >= 0 ? im.secs[i].va + static_cast<u32>(r.below(c.span[i] + 40)) - static_cast<u32>(r.below(20)) : r.pick(pts);
            u64 va2 = im.h[IMGBASE] + in; if(va2 > (im.pe64 ? ~0ull : 0xFFFFFFFFull)) break;
            u32 v = 0; bool ok; u64 want = 0; u64 len = i < 0 ? 0 : virt ? c.span[i] : im.secs[i].data.size();
            if(hd && rva < c.hdr.size() && in < c.hdr.size()) { ok = true; want = c.hdr.size() - in; }
            else if(i < 0 || in < im.secs[i].va) ok = false;
            else { ok = true; u64 off = in - im.secs[i].va; want = off < len ? len - off : 0; }
            int how = static_cast<int>(r.below(3)); if(how == 2 && (va > 0xFFFFFFFFull || va2 > 0xFFFFFFFFull)) how = 1;
            bool g = got([&] { v = how == 0 ? p.section_data_length_from_rva(rva, in, t, hd) : how == 1 ? p.section_data_length_from_va(va, va2, t, hd) : p.section_data_length_from_va(static_cast<u32>(va), static_cast<u32>(va2), t, hd); });
            CHECK(g == ok && (!g || v == want), "remaining-length", "rva %x inside %x %s headers %d: %s %x, expected %s %llx; %s", rva, in, virt ? "mapped" : "file", hd, g ? "got" : "refused", v, ok ? "value" : "refusal", (unsigned long long)want, im.describe().c_str());
            count("length-queries"); break; }
        case 9: { // remaining length in a given section
            if(im.secs.empty()) break;
            size_t k = r.below(im.secs.size()); const RSec& s = im.secs[k];
            u32 in = r.chance(70) ? s.va + static_cast<u32>(r.below(c.span[k] + 20)) - static_cast<u32>(r.below(10)) : rva;
            u64 va2 = im.h[IMGBASE] + in; if(va2 > (im.pe64 ? ~0ull : 0xFFFFFFFFull)) break;
            bool ok = in >= s.va && in - s.va < c.span[k]; u64 len = virt ? c.span[k] : s.data.size(), off = in - s.va, want = off < len ? len - off : 0; u32 v = 0;
            const section& ls = cp.get_image_sections()[k];
            bool g = got([&] { v = r.chance(50) ? p.section_data_length_from_rva(ls, in, t) : p.section_data_length_from_va(ls, va2, t); });
            CHECK(g == ok && (!g || v == want), "remaining-length", "section %zu at %x %s: %s %x, expected %s %llx; %s", k, in, virt ? "mapped" : "file", g ? "got" : "refused", v, ok ? "value" : "refusal", (unsigned long long)want, im.describe().c_str());
            count("length-queries"); break; }
        case 10: { // read-only pointer plus remaining length
            bool ok = (hd && rva < c.hdr.size()) || i >= 0; const char* q = 0;
            bool g = got([&] { q = r.chance(50) ? cp.section_data_from_rva(rva, t, hd) : cp.section_data_from_va(va, t, hd); });
            CHECK(g == ok, "pointer-extent", "rva %x", rva);
            if(g) {
                Bytes want; if(hd && rva < c.hdr.size()) want = c.hdr.substr(rva, 16); else { Bytes v = view(c, i, virt); if(rva - im.secs[i].va < v.size()) want = v.substr(rva - im.secs[i].va, 16); }
                Bytes b(q, want.size()); CHECK(b == want, "pointer-bytes", "rva %x %s headers %d: %s", rva, virt ? "mapped" : "file", hd, diffAt(b, want).c_str()); count("pointer-reads");
            }
            break; }
        case 11: { // write through the raw view
            if(i < 0 || (hd && rva < c.hdr.size())) break;
            Bytes& d = im.secs[i].data; char* q = 0; u32 off = rva - im.secs[i].va;
            int how = static_cast<int>(r.below(4));
            bool g = got([&] { q = how == 0 ? p.section_data_from_rva(rva, hd) : how == 1 ? p.section_data_from_va(va, hd) : how == 2 ? p.section_data_from_rva(p.get_image_sections()[i], rva) : p.section_data_from_va(p.get_image_sections()[i], va); });
            CHECK(g == !d.empty(), "pointer-extent", "writable pointer at rva %x, section data %zu bytes", rva, d.size());
            if(g && off < d.size()) { *q = static_cast<char>(r.u32v()); d[off] = *q; count("writes"); }
            break; }
        case 12: { // switch views directly
            if(im.secs.empty()) break;
            size_t k = r.below(im.secs.size()); section& s = p.get_image_sections()[k]; const section& cs = s;
            Bytes g = virt ? (r.chance(50) ? s.get_virtual_data(c.sa) : cs.get_virtual_data(c.sa)) : (r.chance(50) ? s.get_raw_data() : cs.get_raw_data());
            CHECK(g == view(c, k, virt), "view-bytes", "section %zu %s view: %s", k, virt ? "mapped" : "file", diffAt(g, view(c, k, virt)).c_str());
            if(virt && !im.secs[k].data.empty() && r.chance(30)) { size_t at = r.below(im.secs[k].data.size()); char ch = static_cast<char>(r.u32v()); s.get_virtual_data(c.sa)[at] = ch; im.secs[k].data[at] = ch; count("writes"); }
            count("view-switches"); break; }
        case 14: { // contents or size of a section edited while either view is in use
            if(im.secs.empty() || giant) break;
            size_t k = r.below(im.secs.size()); section& s = p.get_image_sections()[k]; RSec& m = im.secs[k]; if(!m.vsize && m.data.empty()) break;
            if(r.chance(50)) { if(r.chance(50)) s.get_virtual_data(c.sa); else s.get_raw_data(); }
            switch(r.below(4)) {
            case 0: { Bytes d = r.bytes(r.below(std::min<u64>(c.span[k], m.data.size() + 300) + 1)); s.set_raw_data(d); m.data = d; count("contents-replaced"); break; }
            case 1: { Bytes d = r.bytes(r.below(std::min<u64>(c.span[k] - m.data.size(), 300) + 1)); s.get_raw_data() += d; m.data += d; count("contents-grown"); break; }
            case 2: { size_t n = r.below(m.data.size() + 1); s.get_raw_data().resize(n); m.data.resize(n); count("contents-cut"); break; }
            default: { u64 low = std::max<u64>(1, m.data.size()); if(k + 1 == im.secs.size()) { u32 v = static_cast<u32>(low + r.below(3 * c.sa)); if(static_cast<u64>(m.va) + v + c.sa > 0xFFFFFFFFull) break; if(r.chance(60)) p.set_section_virtual_size(s, v); else s.set_virtual_size(v); m.vsize = v; }
                else if(m.vsize) { u32 v = static_cast<u32>(c.span[k] - r.below(c.sa)); s.set_virtual_size(v); m.vsize = v; } c.span[k] = m.span(c.sa); count("sizes-changed"); break; } }
            pts.push_back(m.va + c.span[k]); pts.push_back(m.va + static_cast<u32>(m.data.size())); break; }
        default: { // sizes never change by looking
            if(im.secs.empty()) break;
            size_t k = r.below(im.secs.size()); const section& s = cp.get_image_sections()[k];
            CHECK(s.empty() == im.secs[k].data.empty() && s.get_size_of_raw_data() == im.secs[k].rawsize && s.get_virtual_size() == im.secs[k].vsize, "sizes-changed", "section %zu", k);
            count("size-checks"); break; }
        }
    }
    for(size_t k = 0; k < im.secs.size(); ++k) { const section& s = p.get_image_sections()[k]; CHECK(s.get_raw_data() == im.secs[k].data, "view-bytes", "section %zu after all accesses: %s", k, diffAt(s.get_raw_data(), im.secs[k].data).c_str()); }
    if(any) { nontrivial(tr); if(idx < 50) sample(im.describe()); }
}
