// What a directory rebuild may change: snapshots, the space a directory uses, and the comparison of both
#pragma once
#include "gens.h"
#include <algorithm>
struct Snap { Bytes dos, nt, stub, full, dbg; std::vector<std::string> names; std::vector<pe_win::image_section_header> h; std::vector<Bytes> d; };
static inline Snap snap(const pe_base& p) {
    Snap s; s.dos.assign(reinterpret_cast<const char*>(&p.get_dos_header()), 64); s.nt.assign(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); s.stub = p.get_stub_overlay(); s.full = p.get_full_headers_data(); s.dbg += static_cast<char>(p.has_overlay());
    for(const auto& x : p.get_raw_debug_data_list()) { put32(s.dbg, x.first); s.dbg += x.second; }
    for(const section& x : p.get_image_sections()) { s.h.push_back(x.get_raw_header()); s.d.push_back(x.get_raw_data()); }
    return s;
}
static inline bool sameHdr(const pe_win::image_section_header& a, const pe_win::image_section_header& b, bool sizes) { pe_win::image_section_header x = a, y = b; if(sizes) { x.Misc.VirtualSize = y.Misc.VirtualSize = 0; x.SizeOfRawData = y.SizeOfRawData = 0; } return memcmp(&x, &y, sizeof x) == 0; }
static inline void unchanged(const Snap& a, const Snap& b, const char* key, const std::string& what) {
    CHECK(a.dos == b.dos && a.stub == b.stub && a.full == b.full && a.dbg == b.dbg, key, "%s: headers, stub or debug data changed", what.c_str());
    CHECK(a.nt == b.nt, key, "%s: PE headers changed: %s", what.c_str(), diffAt(b.nt, a.nt).c_str());
    CHECK(a.d.size() == b.d.size(), key, "%s: number of sections changed", what.c_str());
    for(size_t i = 0; i < a.d.size(); ++i) { CHECK(sameHdr(a.h[i], b.h[i], false), key, "%s: header of section %zu changed", what.c_str(), i); CHECK(a.d[i] == b.d[i], key, "%s: contents of section %zu changed: %s", what.c_str(), i, diffAt(b.d[i], a.d[i]).c_str()); }
}
struct Rg { u64 lo, hi; };
// ranges outside its own space a rebuild is asked to write
static inline std::vector<Rg> companions(const Kind& k) {
    std::vector<Rg> v; u64 w = k.pe64 ? 8 : 4;
    if(const KTls* t = dynamic_cast<const KTls*>(&k)) { if(t->start && t->wdata) v.push_back(Rg{t->start, t->end}); if(t->cbs && t->wcb) v.push_back(Rg{t->cbs, t->cbs + w * (t->cb.size() + 1)}); }
    if(const KImports* t = dynamic_cast<const KImports*>(&k)) if(t->st.save_iat_and_original_iat_rvas() && t->st.rewrite_iat_and_original_iat_contents()) for(const MLib& l : t->l) { if(!l.iat) continue; v.push_back(Rg{l.iat, l.iat + w * (l.f.size() + 1)}); if(l.oft) v.push_back(Rg{l.oft, l.oft + w * (l.f.size() + 1)}); }
    return v;
}
// everything the directory's reading depends on
static inline std::vector<Rg> uses(const Kind& k) {
    std::vector<Rg> v = companions(k); u64 w = k.pe64 ? 8 : 4; for(auto& e : k.extra()) v.push_back(Rg{e.first, static_cast<u64>(e.first) + e.second});
    if(const KImports* t = dynamic_cast<const KImports*>(&k)) for(const MLib& l : t->l) { if(l.iat) v.push_back(Rg{l.iat, l.iat + w * (l.f.size() + 1)}); if(l.oft) v.push_back(Rg{l.oft, l.oft + w * (l.f.size() + 1)}); }
    if(const KConfig* t = dynamic_cast<const KConfig*>(&k)) { if(!t->seh.empty()) v.push_back(Rg{t->sht - t->base, t->sht - t->base + 4 * t->seh.size()}); if(t->hasLock) v.push_back(Rg{t->lpt - t->base, t->lpt - t->base + w * (t->lock.size() + 1)}); }
    return v;
}
static inline bool meets(const std::vector<Rg>& a, const std::vector<Rg>& b) { for(const Rg& x : a) for(const Rg& y : b) if(x.lo < y.hi && y.lo < x.hi) return true; return false; }
static inline u32 ntOff(const pe_base& p, u32 dir) { return (p.get_pe_type() == pe_type_64 ? 24 + 112 : 24 + 96) + 8 * dir; }

static inline void frame(const pe_base& p, const Snap& a, const Snap& b, const Kind& k, size_t sec, u32 off, bool save, const image_directory& d, const std::string& what) {
    u64 va = a.h[sec].VirtualAddress, lo = va + off, hi = va + up(off, k.align()) + k.need() + (k.dir == D_RESOURCE ? 3 : 0);
    CHECK(d.get_rva() >= lo && static_cast<u64>(d.get_rva()) + d.get_size() <= hi, "space-wrong", "%s: reported directory %x+%x outside the space %llx-%llx", what.c_str(), d.get_rva(), d.get_size(), (unsigned long long)lo, (unsigned long long)hi);
    std::vector<Rg> ok = companions(k); ok.push_back(Rg{lo, hi});
    // headers
    Bytes want = a.nt; bool pe64 = p.get_pe_type() == pe_type_64;
    if(save) { u32 v[2] = {d.get_rva(), d.get_size()}; want.replace(ntOff(p, k.dir), 8, Bytes(reinterpret_cast<char*>(v), 8)); if(k.dir == D_RELOC) { want[22] = static_cast<char>(want[22] & ~1); want[94] = static_cast<char>(want[94] | (b.nt[94] & 0x40)); } }
    if(const KImports* t = dynamic_cast<const KImports*>(&k)) if(save && t->st.zero_directory_entry_iat()) want.replace(ntOff(p, 12), 8, Bytes(8, '\0'));
    u32 imgOff = 24 + 56; (void)pe64; want.replace(imgOff, 4, b.nt.substr(imgOff, 4)); // checked separately
    CHECK(b.nt == want, "header-changed", "%s: PE headers: %s", what.c_str(), diffAt(b.nt, want).c_str());
    const section& last = p.get_image_sections().back(); u32 end = last.get_virtual_address() + last.get_aligned_virtual_size(p.get_section_alignment());
    CHECK(rd32(b.nt, imgOff) == rd32(a.nt, imgOff) || rd32(b.nt, imgOff) == end, "header-changed", "%s: image size %x, sections end at %x", what.c_str(), rd32(b.nt, imgOff), end);
    CHECK(a.dos == b.dos && a.stub == b.stub && a.dbg == b.dbg, "header-changed", "%s: DOS header, stub or debug data changed", what.c_str());
    auto allowed = [&](u64 rva) { for(const Rg& g : ok) if(rva >= g.lo && rva < g.hi) return true; return false; };
    if(a.full != b.full) { CHECK(a.full.size() == b.full.size(), "header-changed", "%s: header data resized", what.c_str()); for(size_t i = 0; i < a.full.size(); ++i) CHECK(a.full[i] == b.full[i] || allowed(i), "header-changed", "%s: header byte %zx changed", what.c_str(), i); }
    CHECK(a.d.size() == b.d.size(), "sections-changed", "%s: number of sections", what.c_str());
    for(size_t i = 0; i < a.d.size(); ++i) {
        u64 sva = a.h[i].VirtualAddress, send = sva + std::max<u64>(up(std::max<u64>(a.h[i].Misc.VirtualSize, a.h[i].SizeOfRawData), p.get_section_alignment()), 1); bool comp = false; if(i != sec) { send = i + 1 == a.d.size() ? ~0ull : send; for(const Rg& g : companions(k)) if(g.lo < send && g.hi > sva) comp = true; }
        bool touched = i == sec || comp, lastSec = i + 1 == a.d.size();
        CHECK(sameHdr(a.h[i], b.h[i], touched && (i == sec || lastSec)), "other-section-changed", "%s: header of section %zu changed (raw %x virtual %x -> raw %x virtual %x)", what.c_str(), i, a.h[i].SizeOfRawData, a.h[i].Misc.VirtualSize, b.h[i].SizeOfRawData, b.h[i].Misc.VirtualSize);
        if(!lastSec) CHECK(up(b.h[i].Misc.VirtualSize, p.get_section_alignment()) <= up(std::max<u64>(a.h[i].Misc.VirtualSize, a.h[i].SizeOfRawData), p.get_section_alignment()), "section-overflow", "%s: inner section %zu grew from %x to %x", what.c_str(), i, a.h[i].Misc.VirtualSize, b.h[i].Misc.VirtualSize);
        if(a.d[i] == b.d[i]) continue;
        CHECK(touched, "other-section-changed", "%s: contents of section %zu changed: %s", what.c_str(), i, diffAt(b.d[i], a.d[i]).c_str());
        size_t n = std::max(a.d[i].size(), b.d[i].size());
        for(size_t o = 0; o < n; ++o) { char x = o < a.d[i].size() ? a.d[i][o] : 0, y = o < b.d[i].size() ? b.d[i][o] : 0; if(x != y && !allowed(sva + o)) fail("outside-space", "%s: byte at %llx (section %zu offset %zx) changed from %02x to %02x; space %llx-%llx of section at %llx", what.c_str(), (unsigned long long)(sva + o), i, o, x & 255, y & 255, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)va); }
        count("bytes-compared", n);
    }
}
struct Done { std::unique_ptr<Kind> k; std::vector<Rg> use; };
// forgets the directories that depend on bytes given away
static inline void drop(std::vector<Done>& done, int dir, const std::vector<Rg>& v) { for(size_t j = 0; j < done.size();) if(done[j].k->dir == dir || meets(done[j].use, v)) done.erase(done.begin() + static_cast<long>(j)); else ++j; }
// refused because of a range the directory refers to, found out late: only if such a range is not wholly backed by the data of one section
static inline bool late(const pe_base& p, const Snap& a, const Kind& k, int id) {
    if(id != pe_exception::insufficient_space) return false;
    for(const Rg& g : companions(k)) {
        bool in = g.hi <= a.full.size();
        for(size_t i = 0; i < a.d.size() && !in; ++i) { u64 va = a.h[i].VirtualAddress, span = a.h[i].Misc.VirtualSize ? up(a.h[i].Misc.VirtualSize, p.get_section_alignment()) : a.d[i].size(); in = g.lo >= va && g.hi <= va + std::min<u64>(a.d[i].size(), span); }
        if(!in) return true;
    }
    return false;
}
