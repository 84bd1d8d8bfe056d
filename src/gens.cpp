#include "gens.h"
#include <algorithm>
#include <set>

// ---------------------------------------------------------------- common
u32 Ctx::target(Rng& r) const {
    if(targets.empty()) { r.next(); } if(targets.empty()) return 1 + static_cast<u32>(r.below(0x40));
    const Region& g = targets[r.below(targets.size())];
    u32 v = static_cast<u32>(g.lo + r.below(g.size())); return v ? v : 1;
}
bool Ctx::auxTake(Rng& r, u32 size, u32 al, u32& out) {
    std::vector<size_t> c;
    for(size_t i = 0; i < aux.size(); ++i) if(up(aux[i].lo, al) + size <= aux[i].hi) c.push_back(i);
    if(c.empty()) return false;
    Region& g = aux[c[r.below(c.size())]];
    u64 lo = up(g.lo, al), room = g.hi - size - lo;
    u64 p = r.chance(30) ? lo : r.chance(30) ? down(g.hi - size, al) : down(lo + r.below(room + 1), al);
    if(p < lo) p = lo;
    out = static_cast<u32>(p);
    Region tail; tail.lo = p + size; tail.hi = g.hi; g.hi = p;
    if(tail.size()) aux.push_back(tail);
    return true;
}
static const section* secOf(const pe_base& p, u64 rva) {
    for(const section& s : p.get_image_sections()) if(rva >= s.get_virtual_address() && rva < static_cast<u64>(s.get_virtual_address()) + s.get_aligned_virtual_size(p.get_section_alignment())) return &s;
    return 0;
}
// raw access to the library's section contents
static bool poke(pe_base& p, u64 rva, const Bytes& b) {
    for(section& s : p.get_image_sections()) {
        u64 va = s.get_virtual_address();
        if(rva >= va && rva + b.size() <= va + s.get_raw_data().size()) { s.get_raw_data().replace(rva - va, b.size(), b); return true; }
    }
    return false;
}
static Bytes peek(const pe_base& p, u64 rva, u64 n) {
    Bytes r(n, '\0'); const section* s = secOf(p, rva); if(!s) return r;
    const Bytes& d = s->get_raw_data(); u64 o = rva - s->get_virtual_address();
    for(u64 i = 0; i < n; ++i) if(o + i < d.size()) r[i] = d[o + i];
    return r;
}
void saneBase(Img& im, Rng& r) {
    u64 size = up(im.h[SIZEIMG], im.h[SA]) + 0x2000000;
    if(im.pe64) im.h[IMGBASE] = r.chance(50) ? 0x140000000ull : (r.next() >> r.below(40)) & ~0xFFFFull;
    else im.h[IMGBASE] = r.chance(50) ? 0x400000 : r.u32v() & 0xFFFF0000;
    u64 lim = im.pe64 ? ~0ull : 0xFFFFFFFFull;
    if(!im.h[IMGBASE]) im.h[IMGBASE] = 0x10000;
    if(im.h[IMGBASE] > lim - size) im.h[IMGBASE] = (lim - size) & ~0xFFFFull;
}
Spot pickSpot(Rng& r, pe_base& p, u64 need, u32 al, bool allowShort) {
    Spot s; s.fresh = false; s.last = false; s.off = 0; s.sec = 0;
    section_list& l = p.get_image_sections(); u32 fa = p.get_file_alignment(), sa = p.get_section_alignment();
    u64 k = r.below(10);
    if(l.empty() || (k < 3 && l.size() < 95)) {
        section n; n.set_name(".x" + r.ident(0, 4)); n.readable(true).writeable(r.chance(50)); n.set_raw_data(r.bytes(1 + r.below(64)));
        if(r.chance(30)) n.set_virtual_size(static_cast<u32>(r.below(6000)));
        p.add_section(n);
        s.sec = l.size() - 1; s.last = s.fresh = true;
        s.off = r.chance(40) ? 0 : r.chance(70) ? static_cast<u32>(r.below(80)) : static_cast<u32>(r.below(1200));
        if(r.chance(10)) s.off = static_cast<u32>(down(up(s.off + need, r.chance(50) ? sa : fa) - need, al));
        return s;
    }
    // ends exactly where the section's data ends, when it fits that way
    auto tight = [&](u64 from) { u64 e = up(from + need, r.chance(50) ? sa : fa); return static_cast<u32>(down(e - need, al)); };
    std::vector<size_t> c;
    if(k < 7) for(size_t i = 0; i + 1 < l.size(); ++i) {
        u64 raw = up(l[i].get_size_of_raw_data(), fa);
        if(l[i].empty() || raw > l[i].get_aligned_virtual_size(sa)) { if(!allowShort) continue; }
        else if(raw < need + al + 16 && !allowShort) continue;
        c.push_back(i);
    }
    if(!c.empty()) {
        s.sec = r.pick(c); u64 raw = up(l[s.sec].get_size_of_raw_data(), fa);
        if(allowShort) { s.off = r.chance(10) ? r.edge32() : static_cast<u32>(r.below(raw + 64)); return s; }
        u64 room = raw - need - al - 16;
        s.off = static_cast<u32>(r.chance(25) ? 0 : r.chance(15) ? down(raw - need, al) : r.chance(30) ? room : r.below(room + 1));
        return s;
    }
    s.sec = l.size() - 1; s.last = true;
    s.off = static_cast<u32>(r.chance(25) ? 0 : r.below(l[s.sec].get_raw_data().size() + 150));
    if(r.chance(10)) s.off = tight(s.off);
    return s;
}
Ctx ctxFor(const pe_base& p, const Spot* av, u64 need) {
    Ctx c; c.pe64 = p.get_pe_type() == pe_type_64; c.base = p.get_image_base_64();
    const section_list& l = p.get_image_sections();
    for(size_t i = 0; i < l.size(); ++i) {
        u64 va = l[i].get_virtual_address(), end = va + l[i].get_aligned_virtual_size(p.get_section_alignment()), raw = va + std::min<u64>(l[i].get_raw_data().size(), end - va);
        u64 lo = ~0ull, hi = ~0ull;
        if(av && av->sec == i) { lo = va + av->off; hi = lo + need + 24; }
        auto add = [](std::vector<Region>& v, u64 a, u64 b) { if(a < b) v.push_back(Region{a, b}); };
        if(lo == ~0ull) { add(c.targets, va, end); add(c.aux, va, raw); }
        else { add(c.targets, va, std::min(lo, end)); add(c.targets, hi, end); add(c.aux, va, std::min(lo, raw)); add(c.aux, hi, raw); }
    }
    return c;
}
Spot prepareRebuild(Rng& r, pe_base& p, Kind& k, int size, bool allowShort) {
    // contents first (their size decides the place), then addresses that avoid the place
    Rng keep = r; Ctx c0 = ctxFor(p, 0, 0);
    k.gen(r, c0, size);
    u64 need = k.need();
    Spot s = pickSpot(r, p, need, k.align(), allowShort);
    Ctx c = ctxFor(p, &s, need + 64);
    k.gen(keep, c, size);
    return s;
}

// ---------------------------------------------------------------- imports
MImports genImports(Rng& r, bool pe64, int libs, int funcs) {
    MImports l;
    for(int i = 0; i < libs; ++i) {
        MLib m; m.name = r.ident(1, r.chance(5) ? 300 : 20); if(r.chance(5)) m.name = r.nzbytes(1 + r.below(12));
        m.ts = r.chance(50) ? 0 : r.u32v(); m.iat = m.oft = 0;
        int n = static_cast<int>(r.below(funcs + 1));
        for(int k = 0; k < n; ++k) {
            MFunc f; f.named = r.chance(65); f.hint = f.ord = 0;
            if(f.named) { f.name = r.chance(5) ? r.nzbytes(1 + r.below(8)) : r.ident(1, r.chance(3) ? 400 : 24); f.hint = r.chance(30) ? 0 : r.u32v(); }
            else f.ord = r.chance(20) ? (r.chance(50) ? 0 : 0xFFFF) : r.u32v();
            f.iat = r.next() >> r.below(64); if(!pe64) f.iat &= 0xFFFFFFFF; if(r.chance(4)) f.iat = 0; else if(!f.iat) f.iat = 1;
            m.f.push_back(f);
        }
        l.push_back(m);
    }
    return l;
}
u32 encodeImports(Img& im, Arena& a, Rng& r, MImports& l, bool allowNoOft) {
    int w = im.pe64 ? 8 : 4; u64 flag = im.pe64 ? 1ull << 63 : 1ull << 31;
    Bytes desc;
    for(MLib& m : l) {
        bool oft = !allowNoOft || r.chance(60);
        Bytes look, iat;
        for(MFunc& f : m.f) {
            u64 v;
            if(f.named) { Bytes b; put16(b, f.hint); b += f.name; b += '\0'; v = a.place(b, r.chance(70) ? 2 : 1); }
            else v = flag | f.ord | (r.chance(20) ? static_cast<u64>(r.below(0x7FFF)) << 16 : 0);
            if(!oft || r.chance(30)) f.iat = v;
            look.append(reinterpret_cast<const char*>(&v), w); iat.append(reinterpret_cast<const char*>(&f.iat), w);
        }
        look.append(w, '\0'); iat.append(w, '\0');
        m.iat = a.place(iat, r.chance(80) ? w : 1); m.oft = oft ? a.place(look, r.chance(80) ? w : 1) : 0;
        Bytes nm = m.name; nm += '\0';
        put32(desc, m.oft); put32(desc, m.ts); put32(desc, r.chance(80) ? 0 : r.u32v()); put32(desc, a.place(nm, 1)); put32(desc, m.iat);
    }
    desc.append(20, '\0');
    if(r.chance(30)) { desc.resize(desc.size() - 20); put32(desc, r.u32v()); put32(desc, r.u32v()); put32(desc, 0); put32(desc, 0); put32(desc, 0); } // only the name decides
    u32 rva = a.place(desc, r.chance(80) ? 4 : 1);
    im.dir[D_IMPORT][0] = rva; im.dir[D_IMPORT][1] = static_cast<u32>(r.chance(60) ? desc.size() : r.below(5000));
    return rva;
}
MImports decodeImports(const Mem& m, u32 rva, bool pe64) {
    int w = pe64 ? 8 : 4; u64 flag = pe64 ? 1ull << 63 : 1ull << 31; MImports l;
    for(u64 d = rva;; d += 20) {
        MLib lib; lib.oft = m.r32(d); lib.ts = m.r32(d + 4); u32 name = m.r32(d + 12); lib.iat = m.r32(d + 16);
        if(!name) break;
        lib.name = m.str(name);
        if(!lib.iat) bad("library %s has no address table", lib.name.c_str());
        u64 t = lib.oft ? lib.oft : lib.iat;
        for(u64 i = 0;; ++i) {
            u64 v = m.rw(t + i * w, pe64); if(!v) break;
            MFunc f; f.hint = f.ord = 0; f.named = !(v & flag); f.iat = m.rw(static_cast<u64>(lib.iat) + i * w, pe64);
            if(f.named) { if(v >> 31) bad("name address %llx", (unsigned long long)v); f.hint = m.r16(v); f.name = m.str(v + 2); } else { f.ord = static_cast<u16>(v); f.junk = ((v & ~flag) >> 16) != 0; }
            lib.f.push_back(f);
            if(i > 100000) bad("endless table");
        }
        if(m.rw(static_cast<u64>(lib.iat) + lib.f.size() * w, pe64)) bad("address table of %s is not terminated like its lookup table", lib.name.c_str());
        l.push_back(lib);
        if(l.size() > 100000) bad("endless directory");
    }
    return l;
}
imported_functions_list toLib(const MImports& l) {
    imported_functions_list o;
    for(const MLib& m : l) {
        import_library b; b.set_name(m.name); b.set_timestamp(m.ts); b.set_rva_to_iat(m.iat); b.set_rva_to_original_iat(m.oft);
        for(const MFunc& f : m.f) { imported_function x; if(f.named) x.set_name(f.name); x.set_hint(f.named ? f.hint : static_cast<u16>(f.iat * 31 + 7)); x.set_ordinal(f.named ? static_cast<u16>(f.iat * 17 + 3) : f.ord); x.set_iat_va(f.iat); b.add_import(x); }
        o.push_back(b);
    }
    return o;
}
MImports fromLib(const imported_functions_list& l) {
    MImports o;
    for(const import_library& b : l) {
        MLib m; m.name = b.get_name(); m.ts = b.get_timestamp(); m.iat = b.get_rva_to_iat(); m.oft = b.get_rva_to_original_iat();
        for(const imported_function& x : b.get_imported_functions()) { MFunc f; f.named = x.has_name(); f.name = x.get_name(); f.hint = x.get_hint(); f.ord = x.get_ordinal(); f.iat = x.get_iat_va(); m.f.push_back(f); }
        o.push_back(m);
    }
    return o;
}
std::string diffImports(const MImports& g, const MImports& w, int what) {
    if(g.size() != w.size()) return strf("%zu libraries instead of %zu", g.size(), w.size());
    for(size_t i = 0; i < g.size(); ++i) {
        const MLib &a = g[i], &b = w[i];
        if(a.name != b.name) return strf("library %zu is named %s instead of %s", i, show(a.name).c_str(), show(b.name).c_str());
        if((what & 8) && a.ts != b.ts) return strf("library %zu timestamp %x instead of %x", i, a.ts, b.ts);
        if((what & 4) && (a.iat != b.iat || a.oft != b.oft)) return strf("library %zu tables %x/%x instead of %x/%x", i, a.iat, a.oft, b.iat, b.oft);
        if(a.f.size() != b.f.size()) return strf("library %zu has %zu functions instead of %zu", i, a.f.size(), b.f.size());
        for(size_t k = 0; k < a.f.size(); ++k) {
            const MFunc &x = a.f[k], &y = b.f[k];
            if(x.named != y.named || x.name != y.name) return strf("function %zu.%zu is %s instead of %s", i, k, x.named ? show(x.name).c_str() : "unnamed", y.named ? show(y.name).c_str() : "unnamed");
            if(x.named ? x.hint != y.hint : x.ord != y.ord) return strf("function %zu.%zu hint/ordinal %x/%x instead of %x/%x", i, k, x.hint, x.ord, y.hint, y.ord);
            if((what & 16) && x.junk) return strf("function %zu.%zu has reserved bits set beside its ordinal", i, k);
            if((what & 2) && x.iat != y.iat) return strf("function %zu.%zu table value %llx instead of %llx", i, k, (unsigned long long)x.iat, (unsigned long long)y.iat);
        }
    }
    return "";
}
void KImports::gen(Rng& r, Ctx& c, int size) {
    pe64 = c.pe64; base = c.base; noOft = r.chance(25);
    l = genImports(r, pe64, static_cast<int>(r.below(size == 2 ? 20 : size == 1 ? 6 : 3)), size == 2 ? 40 : 8);
    st = import_rebuilder_settings(); st.build_original_iat(!noOft); st.fill_missing_original_iats(r.chance(20)); st.save_iat_and_original_iat_rvas(r.chance(60), r.chance(50)); st.zero_directory_entry_iat(r.chance(30));
}
image_directory KImports::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) {
    st.set_offset_from_section_start(off); st.auto_set_to_pe_headers(save); st.enable_auto_strip_last_section(strip);
    return rebuild_imports(p, toLib(l), s, st);
}
void KImports::plant(Img& im, Arena& a, Rng& r) { foreign = true; encodeImports(im, a, r, l, true); }
std::string KImports::decode(const Mem& m, u32 rva, u32) { return diffImports(decodeImports(m, rva, pe64), l, (noOft ? 1 | 8 : 1 | 2 | 8) | (foreign ? 0 : 16)); }
std::string KImports::lib(const pe_base& p) { return diffImports(fromLib(get_imported_functions(p)), l, noOft ? 1 | 8 : 1 | 2 | 8); }
u64 KImports::need() const {
    u64 w = pe64 ? 8 : 4, str = 0, iat = 0;
    for(const MLib& m : l) { str += m.name.size() + 1; iat += w * (m.f.size() + 1); for(const MFunc& f : m.f) if(f.named) str += f.name.size() + 3; }
    return str + 20 * (l.size() + 1) + iat * (st.build_original_iat() || st.fill_missing_original_iats() ? 2 : 1) + w;
}
std::string KImports::text() const { std::string t = strf("imports of %zu libraries:", l.size()); for(size_t i = 0; i < l.size() && i < 4; ++i) t += strf(" %s(%zu)", show(l[i].name).c_str(), l[i].f.size()); return t; }

// ---------------------------------------------------------------- exports
void KExports::gen(Rng& r, Ctx& c, int size) {
    pe64 = c.pe64; base = c.base; f.clear();
    chars = r.chance(60) ? 0 : r.u32v(); ts = r.u32v(); maj = r.u32v(); min = r.u32v(); dll = r.chance(5) ? r.nzbytes(1 + r.below(20)) : r.ident(1, 30);
    u32 n = static_cast<u32>(r.below(size == 2 ? 120 : size == 1 ? 15 : 5));
    u32 ord = r.chance(40) ? 1 : r.chance(30) ? static_cast<u32>(r.below(70)) : static_cast<u32>(r.below(65000));
    obase = ord; std::set<std::string> used;
    for(u32 i = 0; i < n && ord < 65536; ++i) {
        MExp e; e.ord = ord; ord += 1 + (r.chance(25) ? static_cast<u32>(r.below(r.chance(5) ? 300 : 5)) : 0);
        e.named = r.chance(70); if(e.named) { do e.name = r.chance(10) ? r.nzbytes(1 + r.below(6)) : r.ident(1, r.chance(30) ? 2 : 24); while(!used.insert(e.name).second); }
        e.fwd = r.chance(25); if(e.fwd) e.fname = r.ident(1, 12) + "." + r.ident(1, 12);
        e.rva = c.target(r);
        f.push_back(e);
    }
    if(!f.empty() && r.chance(8)) { u32 d = 65535 - f.back().ord; for(MExp& e : f) e.ord += d; }          // up to the last representable ordinal
    else if(!f.empty() && r.chance(8)) { u32 d = f[0].ord; for(MExp& e : f) e.ord -= d; }
    if(f.size() > 1 && size == 2 && r.chance(3)) f.back().ord = 65535 - (r.chance(50) ? 0 : static_cast<u32>(r.below(65535 - f.back().ord + 1)));
    if(f.size() > 1) obase = f[0].ord;
}
export_info KExports::info() const { export_info i; i.set_characteristics(chars); i.set_timestamp(ts); i.set_major_version(maj); i.set_minor_version(min); i.set_name(dll); i.set_ordinal_base(obase); return i; }
exported_functions_list KExports::list() const {
    exported_functions_list l;
    for(const MExp& e : f) { exported_function x; x.set_ordinal(e.ord); x.set_rva(e.rva); if(e.named) x.set_name(e.name); if(e.fwd) x.set_forwarded_name(e.fname); x.set_name_ordinal(e.ord * 7); l.push_back(x); }
    // the order of the list does not matter
    u64 h = ts; Rng r(h); r.shuffle(l);
    return l;
}
image_directory KExports::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) { return rebuild_exports(p, info(), list(), s, off, save, strip); }
void KExports::plant(Img& im, Arena& a, Rng& r) {
    // header, forwarder strings and any subset of the other pieces live inside the directory's range
    u32 lo = f.empty() ? obase : f[0].ord, n = f.empty() ? 0 : f.back().ord - lo + 1;
    if(!f.empty() && lo && r.chance(20)) { u32 d = 1 + static_cast<u32>(r.below(std::min<u32>(lo, 5))); lo -= d; n += d; }   // leading unused entries
    if(!f.empty() && r.chance(15)) n += std::min<u32>(65535 - f.back().ord, 1 + static_cast<u32>(r.below(5)));   // trailing unused entries
    obase = lo;
    std::vector<Bytes> in; std::vector<u32> inoff;
    u64 blob = 40; auto inside = [&](const Bytes& b, u32 al) { blob = up(blob, al); u64 o = blob; blob += std::max<u64>(1, b.size()); in.push_back(b); inoff.push_back(static_cast<u32>(o)); return o; };
    struct P { bool in; u64 o; };
    std::vector<u64> fo(f.size());
    for(size_t i = 0; i < f.size(); ++i) if(f[i].fwd) { Bytes b = f[i].fname; b += '\0'; fo[i] = inside(b, 1); }
    auto piece = [&](const Bytes& b, u32 al) { P p; p.in = r.chance(60); p.o = p.in ? inside(b, al) : a.place(b.empty() ? Bytes(1, '\0') : b, al); return p; };
    Bytes nm = dll; nm += '\0'; P pn = piece(nm, 1);
    std::vector<size_t> named; for(size_t i = 0; i < f.size(); ++i) if(f[i].named) named.push_back(i);
    if(r.chance(85)) std::sort(named.begin(), named.end(), [&](size_t x, size_t y) { return f[x].name < f[y].name; }); else r.shuffle(named);
    std::vector<P> ps; for(size_t i : named) { Bytes b = f[i].name; b += '\0'; ps.push_back(piece(b, 1)); }
    Bytes ords; for(size_t i : named) put16(ords, f[i].ord - lo);
    P po = piece(ords, 2);
    P pf = piece(Bytes(4 * n, '\0'), 4), pnm = piece(Bytes(4 * named.size(), '\0'), 4);
    u32 base_ = a.alloc(static_cast<u32>(blob), 4);
    auto at = [&](const P& p) { return static_cast<u32>(p.in ? base_ + p.o : p.o); };
    for(size_t i = 0; i < in.size(); ++i) a.write(base_ + inoff[i], in[i]);
    Bytes ft(4 * n, '\0'), nt;
    for(size_t i = 0; i < f.size(); ++i) {
        if(f[i].fwd) f[i].rva = static_cast<u32>(base_ + fo[i]);
        else while(f[i].rva >= base_ && f[i].rva < base_ + blob) f[i].rva = r.u32v() | 1;
        wrn(ft, 4 * (f[i].ord - lo), f[i].rva, 4);
    }
    for(const P& p : ps) put32(nt, at(p));
    a.write(at(pf), ft); a.write(at(pnm), nt);
    Bytes h; put32(h, chars); put32(h, ts); put16(h, maj); put16(h, min); put32(h, at(pn)); put32(h, lo); put32(h, n); put32(h, named.size());
    put32(h, n ? at(pf) : r.chance(50) ? 0 : at(pf)); bool nn = named.empty() && r.chance(60); put32(h, nn ? 0 : at(pnm)); put32(h, nn ? 0 : at(po));
    a.write(base_, h);
    im.dir[D_EXPORT][0] = base_; im.dir[D_EXPORT][1] = static_cast<u32>(blob);
}
std::string KExports::decode(const Mem& m, u32 d, u32 size) {
    if(m.r32(d) != chars || m.r32(d + 4) != ts || m.r16(d + 8) != maj || m.r16(d + 10) != min) return "header fields differ";
    if(m.str(m.r32(d + 12)) != dll) return "library name differs";
    u32 b = m.r32(d + 16), nf = m.r32(d + 20), nn = m.r32(d + 24), af = m.r32(d + 28), an = m.r32(d + 32), ao = m.r32(d + 36);
    std::map<u32, MExp> got;
    if(nf > 70000 || nn > 70000) return strf("%u functions, %u names", nf, nn);
    for(u32 i = 0; i < nf; ++i) {
        u32 v = m.r32(static_cast<u64>(af) + 4 * i); if(!v) continue;
        MExp e; e.ord = b + i; e.rva = v; e.named = false; e.fwd = v >= d && v < d + size; if(e.fwd) e.fname = m.str(v);
        got[e.ord] = e;
    }
    std::string prev;
    for(u32 i = 0; i < nn; ++i) {
        std::string s = m.str(m.r32(static_cast<u64>(an) + 4 * i)); u32 o = m.r16(static_cast<u64>(ao) + 2 * i);
        if(rebuilt && i && !(prev < s)) return strf("names are not sorted: %s before %s", show(prev).c_str(), show(s).c_str());
        prev = s;
        if(o >= nf) return strf("name ordinal %u of %u functions", o, nf);
        if(!got.count(b + o)) return strf("name %s refers to no function", s.c_str());
        MExp& e = got[b + o]; if(e.named) return "two names for one function"; e.named = true; e.name = s;
    }
    if(got.size() != f.size()) return strf("%zu functions instead of %zu", got.size(), f.size());
    if(f.empty() && nf) return strf("%u function entries for an empty list", nf);
    for(const MExp& e : f) {
        if(!got.count(e.ord)) return strf("ordinal %u missing", e.ord);
        const MExp& g = got[e.ord];
        if(g.named != e.named || g.name != e.name) return strf("ordinal %u is named %s instead of %s", e.ord, show(g.name).c_str(), show(e.name).c_str());
        if(g.fwd != e.fwd || g.fname != e.fname) return strf("ordinal %u forwards to '%s' instead of '%s'", e.ord, g.fname.c_str(), e.fname.c_str());
        if(!e.fwd && g.rva != e.rva) return strf("ordinal %u address %x instead of %x", e.ord, g.rva, e.rva);
    }
    return "";
}
std::string KExports::lib(const pe_base& p) {
    export_info i; exported_functions_list l = get_exported_functions(p, i);
    if(i.get_characteristics() != chars || i.get_timestamp() != ts || i.get_major_version() != maj || i.get_minor_version() != min || i.get_name() != dll) return "export information differs";
    u32 names = 0; for(const MExp& e : f) names += e.named;
    if(i.get_number_of_names() != names) return strf("%u names reported for %u", i.get_number_of_names(), names);
    if(l.size() != f.size()) return strf("%zu functions instead of %zu", l.size(), f.size());
    for(size_t k = 0; k < l.size(); ++k) {
        const exported_function& x = l[k]; const MExp& e = f[k];
        if(x.get_ordinal() != e.ord) return strf("function %zu has ordinal %u instead of %u", k, x.get_ordinal(), e.ord);
        if(x.has_name() != e.named || x.get_name() != e.name) return strf("ordinal %u is named %s instead of %s", e.ord, show(x.get_name()).c_str(), show(e.name).c_str());
        if(e.named && x.get_name_ordinal() != e.ord - i.get_ordinal_base()) return strf("ordinal %u name ordinal %u", e.ord, x.get_name_ordinal());
        if(x.is_forwarded() != e.fwd || x.get_forwarded_name() != e.fname) return strf("ordinal %u forwards to '%s' instead of '%s'", e.ord, x.get_forwarded_name().c_str(), e.fname.c_str());
        if(!e.fwd && x.get_rva() != e.rva) return strf("ordinal %u address %x instead of %x", e.ord, x.get_rva(), e.rva);
        if(!exported_ordinal_exists(static_cast<u16>(e.ord), l) || (e.named && !exported_name_exists(e.name, l))) return "existence query wrong";
    }
    exported_functions_list l2 = get_exported_functions(p);
    if(l2.size() != l.size()) return "the two readers differ";
    std::pair<u16, u16> lim = get_export_ordinal_limits(l);
    if(!l.empty() && (lim.first != f[0].ord || lim.second != f.back().ord)) return "ordinal limits wrong";
    return "";
}
u64 KExports::need() const {
    u64 n = 40 + dll.size() + 1; u32 lo = ~0u, hi = 0;
    for(const MExp& e : f) { if(e.named) n += e.name.size() + 1 + 6; if(e.fwd) n += e.fname.size() + 1; lo = std::min(lo, e.ord); hi = std::max(hi, e.ord); }
    return n + (f.empty() ? 0 : 4 * static_cast<u64>(hi - lo + 1));
}
std::string KExports::text() const { return strf("%zu exports of %s, base %u", f.size(), show(dll).c_str(), obase); }

// ---------------------------------------------------------------- relocations
void KRelocs::gen(Rng& r, Ctx& c, int size) {
    pe64 = c.pe64; base = c.base; t.clear();
    int n = static_cast<int>(r.below(size == 2 ? 30 : size == 1 ? 6 : 3));
    for(int i = 0; i < n; ++i) {
        MRel m; m.page = r.chance(70) ? c.target(r) & ~0xFFFu : r.edge32();
        int k = static_cast<int>(r.below(r.chance(10) ? 200 : 10));
        for(int j = 0; j < k; ++j) m.e.push_back(r.chance(15) ? r.u32v() & 0xFFF : r.chance(70) ? (r.u32v() & 0xFFF) | (pe64 ? 0xA000 : 0x3000) : r.u32v());
        t.push_back(m);
    }
}
relocation_table_list KRelocs::list() const {
    relocation_table_list l;
    for(const MRel& m : t) {
        relocation_table x(m.page); relocation_table y; y.set_rva(m.page);
        for(u16 e : m.e) { x.add_relocation(relocation_entry(e)); relocation_entry z(e & 0xFFF, e >> 12); y.add_relocation(z); }
        l.push_back(m.e.size() % 2 ? x : y);
    }
    return l;
}
image_directory KRelocs::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) { return rebuild_relocations(p, list(), s, off, save, strip); }
void KRelocs::plant(Img& im, Arena& a, Rng& r) {
    Bytes b;
    for(const MRel& m : t) { put32(b, m.page); put32(b, 8 + 2 * m.e.size() + (m.e.size() % 2 ? 2 : 0)); for(u16 e : m.e) put16(b, e); if(m.e.size() % 2) put16(b, 0); }
    bool zero = r.chance(20); u32 n = static_cast<u32>(b.size());
    if(zero) b.append(8, '\0');   // terminated by an empty block, directory larger than its blocks
    if(b.empty()) { im.dir[D_RELOC][0] = a.place(r.bytes(1), 1); im.dir[D_RELOC][1] = 0; return; }
    im.dir[D_RELOC][0] = a.place(b, 4); im.dir[D_RELOC][1] = zero ? n + 8 + static_cast<u32>(r.below(100)) : n;
}
static std::string cmpRel(const std::vector<MRel>& g, const std::vector<MRel>& w) {
    if(g.size() != w.size()) return strf("%zu tables instead of %zu", g.size(), w.size());
    for(size_t i = 0; i < g.size(); ++i) {
        if(g[i].page != w[i].page) return strf("table %zu at %x instead of %x", i, g[i].page, w[i].page);
        if(g[i].e.size() != w[i].e.size()) return strf("table %zu has %zu entries instead of %zu", i, g[i].e.size(), w[i].e.size());
        for(size_t k = 0; k < g[i].e.size(); ++k) if(g[i].e[k] != w[i].e[k]) return strf("entry %zu.%zu is %x instead of %x", i, k, g[i].e[k], w[i].e[k]);
    }
    return "";
}
static std::vector<MRel> padded(std::vector<MRel> t) { for(MRel& m : t) if(m.e.size() % 2) m.e.push_back(0); return t; }
std::string KRelocs::decode(const Mem& m, u32 rva, u32 size) {
    std::vector<MRel> g; u64 p = 0;
    if(rva % 4 && size) return strf("directory at %x is not aligned", rva);
    while(p < size) {
        MRel x; x.page = m.r32(rva + p); u32 n = m.r32(rva + p + 4);
        if(n == 0) { break; }
        if(n < 8 || n % 4 || p + n > size) return strf("block of %x bytes at %llx of %x", n, (unsigned long long)p, size);
        for(u32 i = 8; i < n; i += 2) x.e.push_back(m.r16(rva + p + i));
        g.push_back(x); p += n;
    }
    if(rebuilt && p != size) return strf("directory of %x bytes holds %llx bytes of blocks", size, (unsigned long long)p);
    return cmpRel(g, padded(t));
}
std::string KRelocs::lib(const pe_base& p) {
    for(int all = 0; all < 2; ++all) {
        std::vector<MRel> g, w = padded(t); relocation_table_list l = get_relocations(p, all != 0);
        for(const relocation_table& x : l) { MRel m; m.page = x.get_rva(); for(const relocation_entry& e : x.get_relocations()) { if(e.get_item() != ((e.get_type() << 12) | e.get_rva())) return "entry value is not its type and offset"; m.e.push_back(e.get_item()); } g.push_back(m); }
        if(!all) for(MRel& m : w) m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [](u16 v) { return v < 0x1000; }), m.e.end());
        std::string d = cmpRel(g, w); if(!d.empty()) return d + (all ? " (with absolute entries)" : "");
    }
    return "";
}
u64 KRelocs::need() const { u64 n = 0; for(const MRel& m : t) n += 8 + 2 * (m.e.size() + m.e.size() % 2); return n; }
std::string KRelocs::text() const { std::string s = strf("%zu relocation tables:", t.size()); for(size_t i = 0; i < t.size() && i < 5; ++i) s += strf(" %x(%zu)", t[i].page, t[i].e.size()); return s; }

// ---------------------------------------------------------------- TLS
void KTls::gen(Rng& r, Ctx& c, int size) {
    pe64 = c.pe64; base = c.base; u32 w = pe64 ? 8 : 4;
    start = end = cbs = 0; raw.clear(); cb.clear();
    index = c.target(r); zero = r.chance(50) ? 0 : r.u32v(); chars = r.chance(50) ? 0 : r.u32v();
    wcb = r.chance(75); wdata = r.chance(75); exp = r.chance(50) ? tls_data_expand_raw : tls_data_expand_virtual;
    u32 n = static_cast<u32>(r.below(size == 2 ? 400 : 60)), k = static_cast<u32>(r.below(size == 2 ? 20 : 4));
    Bytes d = r.bytes(n);
    u32 st = 0, cbp = 0;
    if(r.chance(80) && c.auxTake(r, n, 1, st) && st) { start = st; end = st + n; raw = d; }
    if(r.chance(70) && c.auxTake(r, (k + 1) * w, r.chance(70) ? w : 1, cbp) && cbp) { cbs = cbp; for(u32 i = 0; i < k; ++i) cb.push_back(c.target(r)); }
    stored = raw;
}
tls_info KTls::info() const {
    tls_info i; i.set_raw_data_start_rva(start); i.set_raw_data_end_rva(end); i.set_index_rva(index); i.set_callbacks_rva(cbs); i.set_size_of_zero_fill(zero); i.set_characteristics(chars); i.set_raw_data(raw);
    for(u32 v : cb) i.add_tls_callback(v);
    return i;
}
void KTls::prep(pe_base& p) {
    if(cbs && !wcb) { Bytes b; for(u32 v : cb) { u64 va = base + v; b.append(reinterpret_cast<const char*>(&va), pe64 ? 8 : 4); } b.append(pe64 ? 8 : 4, '\0'); poke(p, cbs, b); }
    if(start && !wdata) stored = peek(p, start, end - start);
}
image_directory KTls::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) { prep(p); return rebuild_tls(p, info(), s, off, wcb, wdata, exp, save, strip); }
void KTls::plant(Img& im, Arena& a, Rng& r) {
    int w = pe64 ? 8 : 4; base = im.h[IMGBASE];
    auto va = [&](u32 v) { return v ? base + v : 0; };
    if(start) { if(raw.empty()) { start = end = r.chance(50) ? a.alloc(1, 1) : 0; } else { start = a.place(raw, 1); end = start + static_cast<u32>(raw.size()); } }
    if(cbs) { Bytes b; for(u32 v : cb) { u64 x = base + v; b.append(reinterpret_cast<const char*>(&x), w); } b.append(w, '\0'); cbs = a.place(b, w); }
    stored = raw;
    u64 f[4] = {va(start), va(end), va(index), va(cbs)}; Bytes b;
    for(u64 v : f) b.append(reinterpret_cast<const char*>(&v), w);
    put32(b, zero); put32(b, chars);
    im.dir[D_TLS][0] = a.place(b, r.chance(80) ? w : 1); im.dir[D_TLS][1] = r.chance(60) ? static_cast<u32>(b.size()) : r.edge32();
}
std::string KTls::decode(const Mem& m, u32 d, u32) {
    int w = pe64 ? 8 : 4; u64 f[4]; u32 x[4] = {start, end, index, cbs}; static const char* nm[] = {"start", "end", "index", "callbacks"};
    for(int i = 0; i < 4; ++i) { f[i] = m.rw(d + i * w, pe64); u64 e = x[i] ? base + x[i] : 0; if(f[i] != e) return strf("%s address %llx instead of %llx", nm[i], (unsigned long long)f[i], (unsigned long long)e); }
    if(m.r32(d + 4 * w) != zero) return strf("zero fill %x instead of %x", m.r32(d + 4 * w), zero);
    if(m.r32(d + 4 * w + 4) != chars) return "characteristics differ";
    if(start && m.bytes(start, end - start) != stored) return "template: " + diffAt(m.bytes(start, end - start), stored);
    if(cbs) {
        for(size_t i = 0; i < cb.size(); ++i) if(m.rw(cbs + i * w, pe64) != base + cb[i]) return strf("callback %zu is %llx instead of %llx", i, (unsigned long long)m.rw(cbs + i * w, pe64), (unsigned long long)(base + cb[i]));
        if(m.rw(cbs + cb.size() * w, pe64)) return "callback list is not terminated";
    }
    return "";
}
std::string KTls::cmp(const tls_info& i) const {
    if(i.get_raw_data_start_rva() != start || i.get_raw_data_end_rva() != end) return strf("template range %x-%x instead of %x-%x", i.get_raw_data_start_rva(), i.get_raw_data_end_rva(), start, end);
    if(i.get_index_rva() != index || i.get_callbacks_rva() != cbs) return "index or callback table address differs";
    if(i.get_size_of_zero_fill() != zero || i.get_characteristics() != chars) return strf("zero fill/characteristics %x/%x instead of %x/%x", i.get_size_of_zero_fill(), i.get_characteristics(), zero, chars);
    if(i.get_raw_data() != (start ? stored : Bytes())) return "template: " + diffAt(i.get_raw_data(), start ? stored : Bytes());
    if(i.get_tls_callbacks() != (cbs ? cb : std::vector<u32>())) return strf("%zu callbacks, expected %zu (or a value differs)", i.get_tls_callbacks().size(), cb.size());
    return "";
}
std::string KTls::lib(const pe_base& p) { return cmp(get_tls_info(p)); }
u64 KTls::need() const { return pe64 ? 40 : 24; }
std::vector<std::pair<u32, u32> > KTls::extra() const { std::vector<std::pair<u32, u32> > e; if(start) e.push_back(std::make_pair(start, end - start)); if(cbs) e.push_back(std::make_pair(cbs, static_cast<u32>((cb.size() + 1) * (pe64 ? 8 : 4)))); return e; }
std::string KTls::text() const { return strf("tls template %x-%x index %x callbacks %x(%zu) zero %x write data/callbacks %d/%d", start, end, index, cbs, cb.size(), zero, wdata, wcb); }

// ---------------------------------------------------------------- load configuration
void KConfig::gen(Rng& r, Ctx& c, int size) {
    pe64 = c.pe64; base = c.base; u64 mask = pe64 ? ~0ull : 0xFFFFFFFFull; u32 w = pe64 ? 8 : 4; seh.clear(); lock.clear(); rebuilt = false;
    u32* a[] = {&ts, &gfc, &gfs, &cst, &phf}; for(u32* x : a) *x = r.edge32();
    maj = r.u32v(); min = r.u32v(); csd = r.u32v();
    u64* b[] = {&dfb, &dtf, &mas, &vmt, &pam, &edit, &cookie}; for(u64* x : b) *x = r.edge64() & mask;
    lpt = 0; sht = 0; hasLock = false;
    wseh = r.chance(70); wlock = r.chance(70);
    u32 n = static_cast<u32>(r.below(size == 2 ? 60 : 6)), k = static_cast<u32>(r.below(size == 2 ? 30 : 4)); if(r.chance(30)) n = 0; if(r.chance(40)) k = 0;
    u32 at;
    std::vector<u32> ns, nk; for(u32 i = 0; i < n; ++i) ns.push_back(r.chance(80) ? c.target(r) : r.edge32()); for(u32 i = 0; i < k; ++i) nk.push_back(c.target(r));
    u32 d1 = static_cast<u32>(r.below(3)), d2 = static_cast<u32>(r.below(2));
    if(wseh) { seh = ns; if(r.chance(30)) sht = base + c.target(r); }   // an address of an older table is of no consequence
    else if(n && c.auxTake(r, 4 * n, 1, at)) { seh = ns; sht = base + at; }
    else sht = d1 == 0 ? 0 : d1 == 1 ? base + c.target(r) : r.next() & mask >> 8;
    if(wlock) { lock = nk; hasLock = k != 0; if(r.chance(30)) lpt = base + c.target(r); }
    else if((k || d2) && c.auxTake(r, w * (k + 1), 1, at)) { lock = nk; lpt = base + at; hasLock = true; }
}
image_config_info KConfig::info() const {
    image_config_info i; i.set_time_stamp(ts); i.set_major_version(maj); i.set_minor_version(min); i.set_global_flags_clear(gfc); i.set_global_flags_set(gfs); i.set_critical_section_default_timeout(cst);
    i.set_decommit_free_block_threshold(dfb); i.set_decommit_total_free_threshold(dtf); i.set_lock_prefix_table_va(lpt); i.set_max_allocation_size(mas); i.set_virtual_memory_threshold(vmt); i.set_process_affinity_mask(pam);
    i.set_process_heap_flags(phf); i.set_service_pack_version(csd); i.set_edit_list_va(edit); i.set_security_cookie_va(cookie); i.set_se_handler_table_va(sht);
    for(u32 v : seh) i.add_se_handler_rva(v);
    for(u32 v : lock) i.add_lock_prefix_rva(v);
    return i;
}
static Bytes lockBytes(const std::vector<u32>& l, u64 base, int w) { Bytes b; for(u32 v : l) { u64 x = base + v; b.append(reinterpret_cast<const char*>(&x), w); } b.append(w, '\0'); return b; }
void KConfig::prep(pe_base& p) {
    int w = pe64 ? 8 : 4;
    if(!wseh && !seh.empty()) { Bytes b; for(u32 v : seh) put32(b, v); poke(p, sht - base, b); }
    if(!wlock && hasLock) poke(p, lpt - base, lockBytes(lock, base, w));
}
image_directory KConfig::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) {
    prep(p); image_directory d = rebuild_image_config(p, info(), s, off, wseh, wlock, save, strip); rebuilt = true; return d;
}
void KConfig::plant(Img& im, Arena& a, Rng& r) {
    int w = pe64 ? 8 : 4; base = im.h[IMGBASE];
    if(!seh.empty()) { Bytes b; for(u32 v : seh) put32(b, v); sht = base + a.place(b, 1); }
    else if(sht) sht = r.chance(50) ? 0 : base + a.alloc(1, 1);
    hasLock = !lock.empty() || r.chance(30);
    lpt = hasLock ? base + a.place(lockBytes(lock, base, w), 1) : 0;
    wseh = wlock = false;
    Bytes b; u32 size = pe64 ? 112 : 72, more = r.chance(30) ? static_cast<u32>(r.below(100)) : 0;
    put32(b, size + more); put32(b, ts); put16(b, maj); put16(b, min); put32(b, gfc); put32(b, gfs); put32(b, cst);
    auto pw = [&](u64 v) { b.append(reinterpret_cast<const char*>(&v), w); };
    pw(dfb); pw(dtf); pw(lpt); pw(mas); pw(vmt);
    if(pe64) { pw(pam); put32(b, phf); } else { put32(b, phf); pw(pam); }
    put16(b, csd); put16(b, r.u32v()); pw(edit); pw(cookie); pw(sht); pw(seh.size());
    b += r.bytes(more);
    im.dir[D_CONFIG][0] = a.place(b, r.chance(80) ? w : 1); im.dir[D_CONFIG][1] = r.chance(50) ? static_cast<u32>(b.size()) : 64;
}
std::string KConfig::decode(const Mem& m, u32 d, u32) {
    int w = pe64 ? 8 : 4; u64 p = d; std::string e;
    auto f = [&](const char* n, u64 want, int sz) { u64 g = sz == 2 ? m.r16(p) : sz == 4 ? m.r32(p) : m.r64(p); p += sz; if(g != want && e.empty()) e = strf("%s is %llx instead of %llx", n, (unsigned long long)g, (unsigned long long)want); return g; };
    if(rebuilt) f("size", pe64 ? 112 : 72, 4); else p += 4; f("timestamp", ts, 4); f("major", maj, 2); f("minor", min, 2); f("flags clear", gfc, 4); f("flags set", gfs, 4); f("timeout", cst, 4); f("free block", dfb, w); f("total free", dtf, w);
    u64 l = m.rw(p, pe64); if(!wlock) f("lock prefix table", lpt, w); else p += w;
    f("max allocation", mas, w); f("memory threshold", vmt, w);
    if(pe64) { f("affinity", pam, 8); f("heap flags", phf, 4); } else { f("heap flags", phf, 4); f("affinity", pam, 4); }
    f("service pack", csd, 2); p += 2; f("edit list", edit, w); f("cookie", cookie, w);
    u64 t = m.rw(p, pe64); if(!wseh) f("handler table", sht, w); else p += w;
    f("handler count", seh.size(), w);
    if(!e.empty()) return e;
    if(seh.empty() && wseh && t) return "handler table for an empty list";
    std::vector<u32> want = seh; if(wseh) std::sort(want.begin(), want.end());
    for(size_t i = 0; i < want.size(); ++i) { u32 g = m.r32(t - base + 4 * i); if(g != want[i]) return strf("handler %zu is %x instead of %x", i, g, want[i]); }
    if(lock.empty() && wlock) { if(l) return "lock prefix table for an empty list"; }
    if(hasLock) {
        for(size_t i = 0; i < lock.size(); ++i) { u64 g = m.rw(l - base + i * w, pe64); if(g != base + lock[i]) return strf("lock prefix %zu is %llx instead of %llx", i, (unsigned long long)g, (unsigned long long)(base + lock[i])); }
        if(m.rw(l - base + lock.size() * w, pe64)) return "lock prefix table is not terminated";
    }
    return "";
}
std::string KConfig::cmp(const image_config_info& i, bool sorted) const {
#define F(g, m) if(i.g() != m) return strf(#g " is %llx instead of %llx", (unsigned long long)i.g(), (unsigned long long)m)
    F(get_time_stamp, ts); F(get_major_version, maj); F(get_minor_version, min); F(get_global_flags_clear, gfc); F(get_global_flags_set, gfs); F(get_critical_section_default_timeout, cst);
    F(get_decommit_free_block_threshold, dfb); F(get_decommit_total_free_threshold, dtf); F(get_max_allocation_size, mas); F(get_virtual_memory_threshold, vmt); F(get_process_affinity_mask, pam); F(get_process_heap_flags, phf);
    F(get_service_pack_version, csd); F(get_edit_list_va, edit); F(get_security_cookie_va, cookie); F(get_se_handler_count, seh.size());
    if(!wseh) F(get_se_handler_table_va, sht);
    if(!wlock) F(get_lock_prefix_table_va, lpt);
#undef F
    std::vector<u32> want = seh; if(sorted) std::sort(want.begin(), want.end());
    if(i.get_se_handler_rvas() != want) return "handler list differs";
    if(i.get_lock_prefix_rvas() != lock) return "lock prefix list differs";
    return "";
}
std::string KConfig::lib(const pe_base& p) { return cmp(get_image_config(p), wseh); }
u64 KConfig::need() const { u64 w = pe64 ? 8 : 4; return (pe64 ? 112 : 72) + (wseh ? 4 * seh.size() : 0) + (wlock ? w * (lock.size() + 1) : 0); }
std::string KConfig::text() const { return strf("load config, %zu handlers%s, %zu lock prefixes%s", seh.size(), wseh ? " (written)" : "", lock.size(), wlock ? " (written)" : ""); }

// ---------------------------------------------------------------- bound imports
void KBound::gen(Rng& r, Ctx& c, int size) {
    pe64 = c.pe64; base = c.base; l.clear();
    int n = static_cast<int>(r.below(size == 2 ? 30 : size == 1 ? 6 : 3));
    for(int i = 0; i < n; ++i) {
        MBound b; b.name = r.chance(5) ? r.nzbytes(1 + r.below(10)) : r.ident(r.chance(5) ? 0 : 1, 24); b.ts = r.edge32();
        for(int k = static_cast<int>(r.below(r.chance(40) ? 1 : 5)); k > 0; --k) b.refs.push_back(std::make_pair(r.ident(1, 20), r.u32v()));
        l.push_back(b);
    }
}
bound_import_module_list KBound::list() const {
    bound_import_module_list o;
    for(const MBound& b : l) {
        bound_import x(b.name, b.ts); bound_import y; y.set_module_name(b.name); y.set_timestamp(b.ts);
        for(auto& q : b.refs) { x.add_module_ref(bound_import_ref(q.first, q.second)); bound_import_ref z; z.set_module_name(q.first); z.set_timestamp(q.second); y.add_module_ref(z); }
        o.push_back(b.ts & 1 ? x : y);
    }
    return o;
}
image_directory KBound::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) { return rebuild_bound_imports(p, list(), s, off, save, strip); }
Bytes KBound::encode(Rng& r) const {
    u32 hdr = 8; for(const MBound& b : l) hdr += 8 + 8 * static_cast<u32>(b.refs.size());
    Bytes h, s; std::map<std::string, u32> pos; bool share = r.chance(30);
    auto str = [&](const std::string& x) -> u32 { if(share && pos.count(x)) return pos[x]; u32 o = hdr + static_cast<u32>(s.size()); s += x; s += '\0'; if(r.chance(20)) s += Bytes(r.below(4), '\0'); pos[x] = o; return o; };
    for(const MBound& b : l) {
        put32(h, b.ts); put16(h, str(b.name)); put16(h, b.refs.size());
        for(auto& q : b.refs) { put32(h, q.second); put16(h, str(q.first)); put16(h, r.chance(70) ? 0 : r.u32v()); }
    }
    h.append(8, '\0');
    return h + s;
}
void KBound::plant(Img& im, Arena& a, Rng& r) {
    Bytes b; size_t recs = 0; for(const MBound& q : l) recs += 1 + q.refs.size();
    if(recs > 1 && r.chance(10)) {   // names inside the records: nothing follows the terminator
        std::string x = r.ident(1, 3); u32 ts = 0; for(size_t i = 0; i < x.size(); ++i) ts |= static_cast<u32>(static_cast<u8>(x[i])) << 8 * i;
        size_t i = 0, at = 1 + r.below(recs - 1); auto rec = [&](std::string& n, u32& t, size_t refs) { n = x; if(i++ == at) t = ts; put32(b, t); put16(b, static_cast<u32>(8 * at)); put16(b, static_cast<u32>(refs)); };
        for(MBound& q : l) { rec(q.name, q.ts, q.refs.size()); for(auto& f : q.refs) rec(f.first, f.second, 0); }
        b.append(8, '\0');
    } else b = encode(r); im.dir[D_BOUND][0] = a.place(b, 4); im.dir[D_BOUND][1] = static_cast<u32>(b.size()); }
std::string KBound::decode(const Mem& m, u32 d, u32 size) {
    u64 p = d; size_t i = 0;
    for(;; ++i) {
        u32 ts = m.r32(p), o = m.r16(p + 4), n = m.r16(p + 6); if(!o) break;
        if(i >= l.size()) return "more modules than expected";
        if(o >= size) return "name outside the directory";
        if(m.str(d + o) != l[i].name || ts != l[i].ts || n != l[i].refs.size()) return strf("module %zu is %s/%x/%u instead of %s/%x/%zu", i, show(m.str(d + o)).c_str(), ts, n, show(l[i].name).c_str(), l[i].ts, l[i].refs.size());
        p += 8;
        for(u32 k = 0; k < n; ++k, p += 8) if(m.str(d + m.r16(p + 4)) != l[i].refs[k].first || m.r32(p) != l[i].refs[k].second) return strf("reference %zu.%u differs", i, k);
    }
    if(i != l.size()) return strf("%zu modules instead of %zu", i, l.size());
    return "";
}
std::string KBound::lib(const pe_base& p) {
    bound_import_module_list g = get_bound_import_module_list(p);
    if(g.size() != l.size()) return strf("%zu modules instead of %zu", g.size(), l.size());
    for(size_t i = 0; i < g.size(); ++i) {
        if(g[i].get_module_name() != l[i].name || g[i].get_timestamp() != l[i].ts || g[i].get_module_ref_count() != l[i].refs.size()) return strf("module %zu is %s/%x/%zu instead of %s/%x/%zu", i, show(g[i].get_module_name()).c_str(), g[i].get_timestamp(), g[i].get_module_ref_count(), show(l[i].name).c_str(), l[i].ts, l[i].refs.size());
        for(size_t k = 0; k < l[i].refs.size(); ++k) { const bound_import_ref& q = g[i].get_module_ref_list()[k]; if(q.get_module_name() != l[i].refs[k].first || q.get_timestamp() != l[i].refs[k].second) return strf("reference %zu.%zu differs", i, k); }
    }
    return "";
}
u64 KBound::need() const { u64 n = 8; for(const MBound& b : l) { n += 8 + b.name.size() + 1; for(auto& q : b.refs) n += 8 + q.first.size() + 1; } return n; }
std::string KBound::text() const { return strf("%zu bound modules", l.size()); }

// ---------------------------------------------------------------- resources
std::wstring wide(const std::u16string& s) { return std::wstring(s.begin(), s.end()); }
std::u16string narrow(const std::wstring& s) { std::u16string r; for(wchar_t c : s) r += static_cast<char16_t>(c); return r; }
std::u16string genName(Rng& r, size_t lo, size_t hi, bool odd) {
    std::u16string s; size_t n = r.range(lo, hi);
    for(size_t i = 0; i < n; ++i) {
        char16_t c;
        switch(odd ? r.below(4) : 0) {
        case 1: c = static_cast<char16_t>(0x80 + r.below(0x700)); break;
        case 2: do c = static_cast<char16_t>(1 + r.below(0xFFFD)); while(c >= 0xD800 && c < 0xE000); break;
        case 3: { static const char16_t cs[] = {0xFEFF, 0xFFFD, 0xD7FF, 0xE000, 1, 0x7F, 0x80, 0xFF, 0x100, 0xFF00, 0x4E00}; c = cs[r.below(11)]; break; }
        default: c = static_cast<char16_t>('A' + r.below(58)); break;
        }
        s += c;
    }
    return s;
}
void genDirAttrs(Rng& r, MDir& d) { if(r.chance(60)) { d.chars = r.chance(50) ? 0 : r.edge32(); d.ts = r.edge32(); d.maj = r.u32v(); d.min = r.u32v(); } }
MDir genResDir(Rng& r, int depth, int breadth, u32 maxData) {
    MDir d; genDirAttrs(r, d);
    int n = static_cast<int>(1 + r.below(breadth)); std::set<std::u16string> names; std::set<u32> ids;
    for(int i = 0; i < n; ++i) {
        MEnt e; e.named = r.chance(40);
        if(e.named) { e.name = genName(r, r.chance(3) ? 0 : 1, r.chance(3) ? 300 : 12, r.chance(30)); if(!names.insert(e.name).second) continue; }
        else { e.id = r.chance(70) ? static_cast<u32>(r.below(40)) : r.edge32() & 0x7FFFFFFF; if(!ids.insert(e.id).second) continue; }
        e.leaf = depth <= 1 || r.chance(10);
        if(e.leaf) { e.data = r.bytes(r.chance(10) ? 0 : r.below(maxData)); e.cp = r.chance(50) ? 0 : r.edge32(); }
        else { e.sub = genResDir(r, depth - 1, breadth, maxData); if(r.chance(4)) e.sub.e.clear(); }
        d.e.push_back(e);
    }
    return d;
}
resource_directory toLib(const MDir& d) {
    resource_directory o; o.set_characteristics(d.chars); o.set_timestamp(d.ts); o.set_major_version(d.maj); o.get_minor_version(d.min);
    for(const MEnt& e : d.e) {
        resource_directory_entry x; if(e.named) x.set_name(wide(e.name)); else x.set_id(e.id);
        if(e.leaf) x.add_data_entry(resource_data_entry(e.data, e.cp)); else x.add_resource_directory(toLib(e.sub));
        o.add_resource_directory_entry(x);
    }
    return o;
}
MDir fromLib(const resource_directory& d) {
    MDir o; o.chars = d.get_characteristics(); o.ts = d.get_timestamp(); o.maj = d.get_major_version(); o.min = d.get_minor_version();
    u32 named = 0;
    for(const resource_directory_entry& x : d.get_entry_list()) {
        MEnt e; e.named = x.is_named(); e.id = x.get_id(); e.leaf = x.includes_data(); for(wchar_t c : x.get_name()) { if(static_cast<u32>(c) > 0xFFFF) fail("name-wide", "entry name holds %x", (unsigned)c); e.name += static_cast<char16_t>(c); }
        named += e.named;
        if(e.leaf) { e.data = x.get_data_entry().get_data(); e.cp = x.get_data_entry().get_codepage(); } else e.sub = fromLib(x.get_resource_directory());
        o.e.push_back(e);
    }
    if(d.get_number_of_named_entries() != named || d.get_number_of_id_entries() != o.e.size() - named) fail("entry-counters", "directory reports %u named and %u numbered entries but holds %u and %zu", d.get_number_of_named_entries(), d.get_number_of_id_entries(), named, o.e.size() - named);
    return o;
}
static bool entLess(const MEnt& a, const MEnt& b) { if(a.named != b.named) return a.named; return a.named ? a.name < b.name : a.id < b.id; }
void sortDir(MDir& d) { std::sort(d.e.begin(), d.e.end(), entLess); for(MEnt& e : d.e) if(!e.leaf) sortDir(e.sub); }
std::string diffDir(const MDir& g, const MDir& w, bool counters, const std::string& path) {
    if(g.chars != w.chars || g.ts != w.ts || g.maj != w.maj || g.min != w.min) return strf("directory '%s' attributes %x/%x/%x/%x instead of %x/%x/%x/%x", path.c_str(), g.chars, g.ts, g.maj, g.min, w.chars, w.ts, w.maj, w.min);
    if(g.e.size() != w.e.size()) return strf("directory '%s' has %zu entries instead of %zu", path.c_str(), g.e.size(), w.e.size());
    for(size_t i = 0; i < g.e.size(); ++i) {
        const MEnt &a = g.e[i], &b = w.e[i]; std::string p = path + strf("/%zu", i);
        if(a.named != b.named || (a.named ? a.name != b.name : a.id != b.id)) return strf("entry %s is %s%x instead of %s%x", p.c_str(), a.named ? "named " : "", a.named ? (unsigned)a.name.size() : a.id, b.named ? "named " : "", b.named ? (unsigned)b.name.size() : b.id);
        if(a.leaf != b.leaf) return "entry " + p + " changed its kind";
        if(a.leaf) { if(a.data != b.data) return "data of " + p + ": " + diffAt(a.data, b.data); if(a.cp != b.cp) return strf("code page of %s is %x instead of %x", p.c_str(), a.cp, b.cp); }
        else { std::string d = diffDir(a.sub, b.sub, counters, p); if(!d.empty()) return d; }
    }
    return "";
}
namespace { struct Used { u64 lo, hi; const char* what; }; }
static MDir decDir(const Mem& m, u32 root, u32 off, bool order, std::vector<Used>& u, int depth) {
    if(depth > 300) bad("too deep");
    u64 a = static_cast<u64>(root) + off; MDir d; d.chars = m.r32(a); d.ts = m.r32(a + 4); d.maj = m.r16(a + 8); d.min = m.r16(a + 10); u32 nn = m.r16(a + 12), ni = m.r16(a + 14);
    u.push_back(Used{a, a + 16 + 8ull * (nn + ni), "directory"});
    if(u.size() > 200000) bad("too many entries");
    for(u32 i = 0; i < nn + ni; ++i) {
        u32 name = m.r32(a + 16 + 8 * i), to = m.r32(a + 20 + 8 * i); MEnt e; e.named = name >> 31;
        if(e.named != (i < nn)) bad("entry %u of %u named and %u numbered ones has name field %x", i, nn, ni, name);
        if(e.named) { u64 p = static_cast<u64>(root) + (name & 0x7FFFFFFF); u32 n = m.r16(p); for(u32 k = 0; k < n; ++k) e.name += static_cast<char16_t>(m.r16(p + 2 + 2 * k)); u.push_back(Used{p, p + 2 + 2 * n, "name"}); }
        else e.id = name;
        e.leaf = !(to >> 31);
        if(e.leaf) {
            u64 p = static_cast<u64>(root) + to; u32 rva = m.r32(p), n = m.r32(p + 4); e.cp = m.r32(p + 8); e.data = m.bytes(rva, n);
            if(order && (p % 4 || rva % 4)) bad("data entry at %llx, data at %x: not aligned", (unsigned long long)p, rva);
            if(order && m.r32(p + 12)) bad("reserved field of a data entry is %x", m.r32(p + 12));
            u.push_back(Used{p, p + 16, "data entry"}); if(n) u.push_back(Used{rva, static_cast<u64>(rva) + n, "data"});
        } else e.sub = decDir(m, root, to & 0x7FFFFFFF, order, u, depth + 1);
        if(order && !d.e.empty() && entLess(e, d.e.back())) bad("entries are not in order");
        d.e.push_back(e);
    }
    return d;
}
MDir decodeResources(const Mem& m, u32 rva, bool order) {
    std::vector<Used> u; MDir d = decDir(m, rva, 0, order, u, 0);
    if(order) {
        std::sort(u.begin(), u.end(), [](const Used& x, const Used& y) { return x.lo < y.lo; });
        for(size_t i = 1; i < u.size(); ++i) if(u[i].lo < u[i - 1].hi) bad("%s at %llx overlaps %s at %llx", u[i].what, (unsigned long long)u[i].lo, u[i - 1].what, (unsigned long long)u[i - 1].lo);
    }
    return d;
}
void plantResources(Img& im, Arena& a, Rng& r, const MDir& d) {
    // all tables, names and data entries relative to the root; data anywhere
    struct Node { const MDir* d; u32 off; };
    std::vector<const MDir*> dirs; std::vector<const MEnt*> leaves, names;
    std::function<void(const MDir&)> walk = [&](const MDir& x) { dirs.push_back(&x); for(const MEnt& e : x.e) { if(e.named) names.push_back(&e); if(e.leaf) leaves.push_back(&e); else walk(e.sub); } };
    walk(d);
    std::map<const void*, u32> dirOff, nameOff, leafOff; std::vector<std::pair<int, size_t> > items;
    for(size_t i = 1; i < dirs.size(); ++i) items.push_back(std::make_pair(0, i));
    for(size_t i = 0; i < names.size(); ++i) items.push_back(std::make_pair(1, i));
    for(size_t i = 0; i < leaves.size(); ++i) items.push_back(std::make_pair(2, i));
    if(r.chance(60)) r.shuffle(items);
    u64 p = 16 + 8 * d.e.size(); dirOff[dirs[0]] = 0;
    for(auto& it : items) {
        if(it.first == 0) { p = up(p, r.chance(90) ? 4 : 1); dirOff[dirs[it.second]] = static_cast<u32>(p); p += 16 + 8 * dirs[it.second]->e.size(); }
        else if(it.first == 1) { p = up(p, r.chance(70) ? 2 : 1); nameOff[names[it.second]] = static_cast<u32>(p); p += 2 + 2 * names[it.second]->name.size(); }
        else { p = up(p, 4); leafOff[leaves[it.second]] = static_cast<u32>(p); p += 16; }
    }
    Bytes b(p, '\0');
    for(const MEnt* e : names) { wrn(b, nameOff[e], e->name.size(), 2); for(size_t i = 0; i < e->name.size(); ++i) wrn(b, nameOff[e] + 2 + 2 * i, e->name[i], 2); }
    u32 root = a.alloc(static_cast<u32>(p), 4);
    for(const MEnt* e : leaves) { u32 at = e->data.empty() ? root : a.place(e->data, r.chance(70) ? 4 : 1); wrn(b, leafOff[e], at, 4); wrn(b, leafOff[e] + 4, e->data.size(), 4); wrn(b, leafOff[e] + 8, e->cp, 4); wrn(b, leafOff[e] + 12, r.chance(80) ? 0 : r.u32v(), 4); }
    for(const MDir* x : dirs) {
        u32 o = dirOff[x], nn = 0; for(const MEnt& e : x->e) nn += e.named;
        wrn(b, o, x->chars, 4); wrn(b, o + 4, x->ts, 4); wrn(b, o + 8, x->maj, 2); wrn(b, o + 10, x->min, 2); wrn(b, o + 12, nn, 2); wrn(b, o + 14, x->e.size() - nn, 2);
        u32 i = 0;
        for(const MEnt& e : x->e) { wrn(b, o + 16 + 8 * i, e.named ? 0x80000000u | nameOff[&e] : e.id, 4); wrn(b, o + 20 + 8 * i, e.leaf ? leafOff[&e] : 0x80000000u | dirOff[&e.sub], 4); ++i; }
    }
    a.write(root, b);
    im.dir[D_RESOURCE][0] = root; im.dir[D_RESOURCE][1] = static_cast<u32>(r.chance(50) ? p : r.below(10000));
}
void KResources::gen(Rng& r, Ctx& c, int size) { pe64 = c.pe64; base = c.base; d = genResDir(r, static_cast<int>(1 + r.below(r.chance(5) ? 6 : 3)), size == 2 ? 6 : size == 1 ? 4 : 2, size == 2 ? 120 : 30); if(d.e.empty()) { MEnt e; e.id = 1; d.e.push_back(e); } rebuilt = false; }
image_directory KResources::rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) { resource_directory x = toLib(d); image_directory g = rebuild_resources(p, x, s, off, save, strip); sortDir(d); rebuilt = true; return g; }
void KResources::plant(Img& im, Arena& a, Rng& r) {
    std::function<void(MDir&)> st = [&](MDir& x) { std::stable_sort(x.e.begin(), x.e.end(), [](const MEnt& p, const MEnt& q) { return p.named > q.named; }); for(MEnt& e : x.e) if(!e.leaf) st(e.sub); };
    if(r.chance(70)) sortDir(d); else st(d);
    plantResources(im, a, r, d);
}
std::string KResources::decode(const Mem& m, u32 rva, u32) { MDir g; try { g = decodeResources(m, rva, rebuilt); } catch(const Bad& b) { return b.why; } return diffDir(g, d); }
std::string KResources::lib(const pe_base& p) { return diffDir(fromLib(get_resources(p)), d); }
static void space(const MDir& d, u64& n) { n += 16; for(const MEnt& e : d.e) { n += 8; if(e.named) n += 2 + 2 * (e.name.size() + 1); if(e.leaf) n += 16 + up(e.data.size(), 4); else space(e.sub, n); } }
u64 KResources::need() const { u64 n = 0; space(d, n); return n + 4; }
std::string KResources::text() const { u64 n = 0; std::function<void(const MDir&)> w = [&](const MDir& x) { for(const MEnt& e : x.e) { ++n; if(!e.leaf) w(e.sub); } }; w(d); return strf("resource tree of %llu entries", (unsigned long long)n); }

std::unique_ptr<Kind> makeKind(int k) {
    switch(k) {
    case 0: return std::unique_ptr<Kind>(new KImports());
    case 1: return std::unique_ptr<Kind>(new KExports());
    case 2: return std::unique_ptr<Kind>(new KRelocs());
    case 3: return std::unique_ptr<Kind>(new KTls());
    case 4: return std::unique_ptr<Kind>(new KConfig());
    case 5: return std::unique_ptr<Kind>(new KBound());
    default: return std::unique_ptr<Kind>(new KResources());
    }
}

// ---------------------------------------------------------------- scenarios
void planted(Rng& r, Img& im, Kind& k, int size, bool headers) {
    saneBase(im, r);
    Ctx c; c.pe64 = im.pe64; c.base = im.h[IMGBASE];
    for(const RSec& s : im.secs) c.targets.push_back(Region{s.va, s.va + static_cast<u64>(s.span(static_cast<u32>(im.h[SA])))});
    k.pe64 = im.pe64; k.base = c.base;
    Arena a(im, r); if(headers) a.withHeaders();
    k.gen(r, c, size);
    k.plant(im, a, r);
}
static Img roomyImg(Rng& r, u32 maxData) { GenOpt o; o.minSecs = 1; o.maxSecs = 5; o.maxSecData = maxData; o.fullDirs = r.chance(80); o.odd = r.chance(50); Img im = genImg(r, o); return im; }
void readScenario(Rng& r, Kind& k, int size, bool headers) {
    Img im = roomyImg(r, size == 2 ? 12000 : 4000);
    if(im.ndirs() <= static_cast<u32>(k.dir)) throw CaseSkip();
    planted(r, im, k, size, headers);
    if(r.chance(50)) trimZeros(im, r);
    Bytes f = im.file(); note_input(f);
    {   // the planted directory must mean the same to the independent decoder
        Parsed q = parse(f, false); if(!q.ok()) fail("harness-file", "generated file: %s", q.err.c_str());
        std::string d; try { d = k.decode(Mem(mapImage(f, q)), q.im.dir[k.dir][0], q.im.dir[k.dir][1]); } catch(const Bad& b) { d = b.why; }
        if(!d.empty()) fail("harness-plant", "planted %s: %s", k.text().c_str(), d.c_str());
    }
    std::string d;
    mustWork("read-refused", "reading " + k.text(), [&] { pe_base p = openPe(f); d = k.lib(p); });
    CHECK(d.empty(), "read-wrong", "reading %s: %s", k.text().c_str(), d.c_str());
    count("directories-read"); if(k.empty()) count("empty-read"); else nontrivial(fnv(f));
    sample("read " + k.text() + " from " + im.describe());
    if(r.chance(15) && dumpable(im)) {  // the same image loaded from a memory dump
        Bytes m = dumpImage(im, r);
        mustWork("read-refused", "reading " + k.text() + " from a memory dump", [&] { pe_base p = openPe(m, true); d = k.lib(p); });
        CHECK(d.empty(), "read-wrong", "reading %s from a memory dump: %s", k.text().c_str(), d.c_str());
        count("dumps-read");
    }
}
pe_base subject(Rng& r, bool roomy) {
    u64 k = r.below(20);
    if(k == 0) { bool dll = r.chance(50); u32 sa = r.chance(50) ? 0x1000 : 0x2000; if(r.chance(50)) { pe_base p(pe_properties_64(), sa, dll); return p; } pe_base p(pe_properties_32(), sa, dll); return p; }
    if(k == 1) { const auto& f = realFiles(); for(int i = 0; i < 20; ++i) { const Bytes& b = r.pick(f).second; if(b.size() > 200000) continue; try { pe_base p = openPe(b); if(p.get_number_of_rvas_and_sizes() == 16) { note_input(b); return p; } } catch(const pe_exception&) {} } }
    Img im = roomyImg(r, roomy ? 9000 : 3000); saneBase(im, r);
    if(im.ndirs() < 16) { im.h[NRVA] = 16; layout(im, r, false); }
    if(im.secs.size() > 40) throw CaseSkip();
    Bytes f = im.file(); note_input(f);
    pe_base p = openPe(f);
    if(r.chance(15)) { pe_base q(p); return q; }
    return p;
}
void checkStored(pe_base& p, Kind& k, const char* when, bool strip) {
    if(headersFull(p)) { bool ok = true; try { writePe(p, strip); } catch(const pe_exception&) { ok = false; } if(!ok) { count("headers-full"); return; } }
    Bytes f; mustWork("write-failed", std::string("writing the image ") + when, [&] { f = writePe(p, strip); });
    Parsed q = parse(f, true); CHECK(q.ok(), "written-file-invalid", "%s: %s", when, q.err.c_str());
    u32 d = q.im.dir[k.dir][0], n = q.im.dir[k.dir][1]; std::string e;
    try { e = k.decode(Mem(mapImage(f, q)), d, n); } catch(const Bad& b) { e = b.why; }
    CHECK(e.empty(), "stored-wrong", "%s written %s, read independently at %x+%x: %s", k.text().c_str(), when, d, n, e.c_str());
    mustWork("reread-refused", "reading " + k.text() + " back", [&] { pe_base z = openPe(f); e = k.lib(z); });
    CHECK(e.empty(), "reread-wrong", "%s written %s and read back: %s", k.text().c_str(), when, e.c_str());
}
// A request that does not fit into a section that is not the last one.
static u64 noRoomScenario(Rng& r, Kind& k, int size) {
    pe_base p = subject(r, r.chance(50)); Spot s = prepareRebuild(r, p, k, size, true); k.prep(p); section_list& l = p.get_image_sections();
    if(s.sec + 1 >= l.size()) throw CaseSkip();
    section& sec = l[s.sec]; u64 room = up(sec.get_size_of_raw_data(), p.get_file_alignment()), slack = k.dir == D_RESOURCE ? 4 : 0;
    if(!sec.empty() && r.chance(60)) s.off = static_cast<u32>(room + slack + 1 + r.below(k.need() + 8) > k.need() ? room + slack + 1 + r.below(8) - std::min<u64>(k.need(), room + slack + 1) : room);
    u64 end = up(s.off, k.align()) + k.need(); if(!sec.empty() && end <= room + slack) throw CaseSkip();
    bool save = r.chance(75), strip = r.chance(50); std::string what = strf("%s into inner section %zu of %llx bytes at %x (needs %llx)", k.text().c_str(), s.sec, (unsigned long long)room, s.off, (unsigned long long)k.need());
    std::vector<Bytes> was; for(auto& q : l) was.push_back(q.get_raw_data()); u32 rva = p.get_directory_rva(k.dir), sz = p.get_directory_size(k.dir);
    mustRefuse("no-room-accepted", "rebuilding " + what, [&] { k.rebuild(p, sec, s.off, save, strip); });
    for(size_t i = 0; i < was.size(); ++i) CHECK(l[i].get_raw_data() == was[i], "refused-but-changed", "%s was refused, but section %zu changed", what.c_str(), i);
    CHECK(p.get_directory_rva(k.dir) == rva && p.get_directory_size(k.dir) == sz, "refused-but-changed", "%s was refused, but the directory entry changed", what.c_str());
    count("no-room-refused"); u64 h = fnv(what) ^ r.next(); nontrivial(h); return h;
}
u64 writeScenario(Rng& r, Kind& k, int size) {
    if(r.chance(6)) return noRoomScenario(r, k, size);
    pe_base p = subject(r, size != 0);
    Spot s = prepareRebuild(r, p, k, size, false);
    bool save = r.chance(75), strip = r.chance(50); std::string what = strf("%s into %s section %zu at %x", k.text().c_str(), s.fresh ? "new" : s.last ? "last" : "inner", s.sec, s.off);
    u32 oldRva = p.get_directory_rva(k.dir), oldSize = p.get_directory_size(k.dir); image_directory d;
    mustWork("rebuild-refused", "rebuilding " + what, [&] { d = k.rebuild(p, p.get_image_sections()[s.sec], s.off, save, strip); });
    k.rebuilt = true;
    EQ(p.get_directory_rva(k.dir), save ? d.get_rva() : oldRva, "entry-wrong", "directory address after rebuilding %s (save %d)", what.c_str(), save);
    EQ(p.get_directory_size(k.dir), save ? d.get_size() : oldSize, "entry-wrong", "directory size after rebuilding %s (save %d)", what.c_str(), save);
    if(!save) { if(k.dir == D_RELOC) p.clear_characteristics_flags(1); p.set_directory_rva(k.dir, d.get_rva()); p.set_directory_size(k.dir, d.get_size()); }
    std::string e; mustWork("object-reread-refused", "reading rebuilt " + what, [&] { e = k.lib(p); });
    CHECK(e.empty(), "object-reread-wrong", "rebuilt %s (directory %x+%x, need %llx): %s", what.c_str(), d.get_rva(), d.get_size(), (unsigned long long)k.need(), e.c_str());
    checkStored(p, k, strf("in section %zu at %x", s.sec, s.off).c_str());
    count("directories-written"); if(!s.fresh && !s.last) count("inner-sections"); if(k.empty()) count("empty-written");
    u64 h = fnv(k.text()) ^ r.next(); if(!k.empty()) nontrivial(h);
    sample("wrote " + what);
    return h;
}
