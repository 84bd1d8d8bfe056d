// Debug directory decoding against encoded models
#include "../gens.h"
extern const char* const PROPERTY = "C22";
extern const char* const RULE = "each case encodes a random list of debug entries (all types, CodeView PDB 7.0/2.0/older, miscellaneous and COFF payloads placed in headers, sections or after them) into a generated image, has the library read it and compares every record with the model, then copies, assigns and edits records and compares again; non-trivial: at least one entry with a decoded payload; distinct by file";
u64 num_cases(bool t) { return t ? 1000000 : 40000; }
void setup() {}
struct Sym { u32 index, cls, type, sec, rva; bool file; std::string name; };
enum Pay { NONE, PDB7, PDB2, CV4, CV5, CVX, MISC, COFF };
struct Ent {
    u32 chars, ts, maj, min, type, rva, ptr, size; Pay pay; Bytes data;
    Bytes guid; u32 age, sig; std::string name;
    u32 dtype; bool uni; std::u16string wname;
    u32 c[8]; std::vector<Sym> syms;
    Ent() : chars(0), ts(0), maj(0), min(0), type(0), rva(0), ptr(0), size(0), pay(NONE), age(0), sig(0), dtype(0), uni(false) { memset(c, 0, sizeof c); }
};
static std::string text(Rng& r, size_t max) { return r.chance(80) ? r.ident(r.chance(10) ? 0 : 1, max) : r.nzbytes(r.below(max + 1)); }
static void coff(Rng& r, Ent& e) {
    Bytes strs(4, '\0'); Bytes tab; u32 n = 0; u64 want = r.chance(10) ? 0 : r.below(r.chance(10) ? 60 : 12);
    auto rec = [&](const Bytes& name8, u32 value, u32 sec, u32 type, u32 cls, u32 aux) { tab += name8; put32(tab, value); put16(tab, sec); put16(tab, type); tab += static_cast<char>(cls); tab += static_cast<char>(aux); ++n; };
    auto auxes = [&](u32 k) { for(u32 i = 0; i < k; ++i) { // auxiliary records that look like symbols when not skipped
            if(r.chance(60)) { Bytes b; b += Bytes("aux") + r.nzbytes(5); put32(b, r.u32v()); put16(b, 1); put16(b, 0x20); b += static_cast<char>(r.chance(50) ? 2 : 3); b += '\0'; tab += b; } else tab += r.bytes(18); ++n; } };
    for(u64 k = 0; k < want; ++k) {
        Sym s; s.index = n; s.file = false; s.sec = 0; s.rva = r.edge32(); s.cls = 2; s.type = 0;
        Bytes nm; if(r.chance(55)) { s.name = r.nzbytes(1 + r.below(8)); nm = s.name; nm.resize(8, '\0'); } else { if(r.chance(20) && strs.size() > 4) { u32 o = static_cast<u32>(4 + r.below(strs.size() - 4)); s.name = std::string(strs.c_str() + o); put32(nm, 0); put32(nm, o); } else { put32(nm, 0); put32(nm, strs.size()); s.name = text(r, 40); strs += s.name; strs += '\0'; } }
        switch(r.below(5)) {
        case 0: { u32 a = static_cast<u32>(r.below(4)); s.cls = 103; s.file = true; s.name = a ? text(r, 18 * a) : std::string(); Bytes d = s.name; d.resize(18 * a, '\0'); s.type = r.u32v() & 0xFFFF; s.rva = 0;
            rec(Bytes(".file\0\0\0", 8), r.u32v(), 0xFFFE, s.type, 103, a); tab += d; n += a; e.syms.push_back(s); count("coff-files"); break; }
        case 1: s.cls = 3; s.sec = 1; s.type = r.u32v() & 0xFFFF; rec(nm, s.rva, 1, s.type, 3, 0); e.syms.push_back(s); count("coff-statics"); break;
        case 2: { u32 a = r.chance(50) ? 0 : static_cast<u32>(r.below(3)); s.sec = r.chance(50) ? 1 + static_cast<u32>(r.below(20)) : 1 + static_cast<u32>(r.below(0x7FFF)); s.type = 0x20 | (r.u32v() & 0xFFCF); rec(nm, s.rva, s.sec, s.type, 2, a); auxes(a); e.syms.push_back(s); count("coff-functions"); break; }
        default: { u32 a = r.chance(40) ? 0 : static_cast<u32>(1 + r.below(3)); u32 ty = r.u32v() & 0xFFFF, cls, sec = r.u32v() & 0xFFFF;
            switch(r.below(5)) { case 0: cls = 3; if(!a) sec = 2; break; case 1: cls = 3; if(!a) a = 1; sec = 1; break; case 2: cls = 2; ty = (ty & ~0x30u) | (r.chance(50) ? 0 : 0x30); break; case 3: cls = 2; sec = r.chance(50) ? 0 : 0x8000 | sec; break; default: cls = 100 + static_cast<u32>(r.below(3)); }
            rec(nm, r.u32v(), sec, ty, cls, a); auxes(a); count("coff-others"); }
        }
    }
    wrn(strs, 0, strs.size(), 4);
    for(u32& x : e.c) x = r.edge32(); 
    u32 gap = r.chance(50) ? 0 : static_cast<u32>(r.below(60)); e.c[0] = n; e.c[1] = 32 + gap;
    for(u32 x : e.c) put32(e.data, x);
    e.data += r.bytes(gap) + tab + strs; if(r.chance(30)) e.data += r.bytes(r.below(20));
}
static Ent gen(Rng& r) {
    Ent e; e.chars = r.edge32(); e.ts = r.edge32(); e.maj = r.u32v() & 0xFFFF; e.min = r.u32v() & 0xFFFF;
    switch(r.below(9)) {
    case 0: e.pay = PDB7; e.type = 2; e.guid = r.bytes(16); e.age = r.edge32(); e.name = text(r, 60); e.data = "RSDS" + e.guid; put32(e.data, e.age); e.data += e.name; e.data += '\0'; if(r.chance(30)) e.data += r.bytes(r.below(10)); break;
    case 1: e.pay = PDB2; e.type = 2; e.sig = r.edge32(); e.age = r.edge32(); e.name = text(r, 60); e.data = "NB10"; put32(e.data, r.edge32()); put32(e.data, e.sig); put32(e.data, e.age); e.data += e.name; e.data += '\0'; if(r.chance(30)) e.data += r.bytes(r.below(10)); if(e.data.size() < 20) e.data.resize(20, '\0'); break;
    case 2: e.pay = CV4; e.type = 2; e.data = "NB09" + r.bytes(4 + r.below(40)); break;
    case 3: e.pay = r.chance(50) ? CV5 : CVX; e.type = 2; e.data = (e.pay == CV5 ? "NB11" : "NB05") + r.bytes(4 + r.below(40)); break;
    case 4: e.pay = MISC; e.type = 4; e.dtype = r.chance(50) ? 1 : r.edge32(); e.uni = r.chance(50); { Bytes b; if(e.uni) { e.wname = genName(r, 0, 60, false); while(!e.wname.empty() && !e.wname.back()) e.wname.pop_back(); b = Bytes(reinterpret_cast<const char*>(e.wname.data()), 2 * e.wname.size()); } else { e.name = text(r, 80); b = e.name; }
        b.resize(b.size() + (e.uni ? 2 : 1) * (r.chance(30) ? 0 : 1 + r.below(8)), '\0'); if(b.empty()) b.resize(2, '\0'); put32(e.data, e.dtype); put32(e.data, 12 + b.size()); e.data += static_cast<char>(e.uni ? 1 + (r.chance(20) ? r.below(255) : 0) : 0); e.data += r.bytes(3); e.data += b; if(r.chance(30)) e.data += r.bytes(r.below(20)); break; }
    case 5: case 6: e.pay = COFF; e.type = 1; coff(r, e); break;
    case 7: { static const u32 ty[] = {0, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 0x101, 0xFFFFFFFF}; e.type = ty[r.below(15)]; e.data = r.bytes(r.below(50)); break; }
    default: // CodeView of an unknown flavour, or types whose data is missing
        if(r.chance(40)) { e.type = 2; e.data = (r.chance(50) ? "NB08" : "MTOC") + r.bytes(4 + r.below(40)); } else e.type = r.chance(70) ? 1 + static_cast<u32>(r.below(4)) : 16;
    }
    e.size = static_cast<u32>(e.data.size());
    return e;
}
static debug_info::debug_info_type typeOf(u32 t) {
    switch(t) { case 1: return debug_info::debug_type_coff; case 2: return debug_info::debug_type_codeview; case 3: return debug_info::debug_type_fpo; case 4: return debug_info::debug_type_misc; case 5: return debug_info::debug_type_exception; case 6: return debug_info::debug_type_fixup; case 7: return debug_info::debug_type_omap_to_src; case 8: return debug_info::debug_type_omap_from_src; case 9: return debug_info::debug_type_borland; case 10: return debug_info::debug_type_reserved10; case 11: return debug_info::debug_type_clsid; default: return debug_info::debug_type_unknown; }
}
static const debug_info::advanced_info_type ADV[] = {debug_info::advanced_info_none, debug_info::advanced_info_pdb_7_0, debug_info::advanced_info_pdb_2_0, debug_info::advanced_info_codeview_4_0, debug_info::advanced_info_codeview_5_0, debug_info::advanced_info_codeview, debug_info::advanced_info_misc, debug_info::advanced_info_coff};
static const char* const PN[] = {"no payload", "PDB 7.0", "PDB 2.0", "CodeView 4.0", "CodeView 5.0", "CodeView", "misc", "COFF"};
static Pay compare(const debug_info& d, const Ent& e, bool payloads, const char* how) {
    const char* n = PN[e.pay]; Pay pay = payloads ? e.pay : NONE;
    EQ(d.get_characteristics(), e.chars, "field-wrong", "%s %s: characteristics", how, n); EQ(d.get_time_stamp(), e.ts, "field-wrong", "%s %s: time stamp", how, n); EQ(d.get_major_version(), e.maj, "field-wrong", "%s %s: major version", how, n); EQ(d.get_minor_version(), e.min, "field-wrong", "%s %s: minor version", how, n);
    EQ(d.get_type_raw(), e.type, "field-wrong", "%s %s: type", how, n); EQ(static_cast<u32>(d.get_type()), static_cast<u32>(typeOf(e.type)), "type-wrong", "%s: kind of type %x", how, e.type); EQ(d.get_size_of_data(), e.size, "field-wrong", "%s %s: data size", how, n); EQ(d.get_rva_of_raw_data(), e.rva, "field-wrong", "%s %s: data address", how, n); EQ(d.get_pointer_to_raw_data(), e.ptr, "field-wrong", "%s %s: data file offset", how, n);
    EQ(static_cast<u32>(d.get_advanced_info_type()), static_cast<u32>(ADV[pay]), "detail-kind-wrong", "%s %s: kind of detail", how, n);
    if(pay != PDB7) mustRefuse("foreign-detail-given", strf("PDB 7.0 detail of %s", n), [&] { d.get_advanced_debug_info<pdb_7_0_info>(); });
    if(pay != PDB2) mustRefuse("foreign-detail-given", strf("PDB 2.0 detail of %s", n), [&] { d.get_advanced_debug_info<pdb_2_0_info>(); });
    if(pay != MISC) mustRefuse("foreign-detail-given", strf("misc detail of %s", n), [&] { d.get_advanced_debug_info<misc_debug_info>(); });
    if(pay != COFF) mustRefuse("foreign-detail-given", strf("COFF detail of %s", n), [&] { d.get_advanced_debug_info<coff_debug_info>(); });
    mustWork("detail-refused", strf("%s detail", n), [&] {
        if(pay == PDB7) { const pdb_7_0_info i = d.get_advanced_debug_info<pdb_7_0_info>(); pe_win::guid g = i.get_guid(); EQ(Bytes(reinterpret_cast<const char*>(&g), 16), e.guid, "detail-wrong", "%s: GUID", how); EQ(i.get_age(), e.age, "detail-wrong", "%s PDB 7.0: age", how); EQ(i.get_pdb_file_name(), e.name, "detail-wrong", "%s PDB 7.0: file name", how); }
        if(pay == PDB2) { const pdb_2_0_info i = d.get_advanced_debug_info<pdb_2_0_info>(); EQ(i.get_signature(), e.sig, "detail-wrong", "%s PDB 2.0: signature", how); EQ(i.get_age(), e.age, "detail-wrong", "%s PDB 2.0: age", how); EQ(i.get_pdb_file_name(), e.name, "detail-wrong", "%s PDB 2.0: file name", how); }
        if(pay == MISC) { const misc_debug_info i = d.get_advanced_debug_info<misc_debug_info>(); EQ(i.get_data_type(), e.dtype, "detail-wrong", "%s misc: data type", how); EQ(i.is_exe_name(), e.dtype == 1, "detail-wrong", "%s misc: executable name", how); EQ(i.is_unicode(), e.uni, "detail-wrong", "%s misc: unicode", how); EQ(i.get_data_ansi(), e.uni ? std::string() : e.name, "detail-wrong", "%s misc: text", how); EQ(i.get_data_unicode(), e.uni ? wide(e.wname) : std::wstring(), "detail-wrong", "%s misc: wide text", how); }
        if(pay == COFF) { const coff_debug_info i = d.get_advanced_debug_info<coff_debug_info>();
            u32 g[8] = {i.get_number_of_symbols(), i.get_lva_to_first_symbol(), i.get_number_of_line_numbers(), i.get_lva_to_first_line_number(), i.get_rva_to_first_byte_of_code(), i.get_rva_to_last_byte_of_code(), i.get_rva_to_first_byte_of_data(), i.get_rva_to_last_byte_of_data()};
            for(int k = 0; k < 8; ++k) EQ(g[k], e.c[k], "detail-wrong", "%s COFF: header field %d", how, k);
            const auto& s = i.get_symbols(); CHECK(s.size() == e.syms.size(), "symbols-wrong", "%s COFF: %zu symbols instead of %zu", how, s.size(), e.syms.size());
            for(size_t k = 0; k < s.size(); ++k) { const Sym& w = e.syms[k]; EQ(s[k].get_index(), w.index, "symbols-wrong", "%s symbol %zu: index", how, k); EQ(s[k].get_storage_class(), w.cls, "symbols-wrong", "%s symbol %zu: storage class", how, k); EQ(s[k].get_type(), w.type, "symbols-wrong", "%s symbol %zu: type", how, k); EQ(s[k].is_file(), w.file, "symbols-wrong", "%s symbol %zu: file", how, k); EQ(s[k].get_symbol(), w.name, "symbols-wrong", "%s symbol %zu: name", how, k); if(!w.file) { EQ(s[k].get_section_number(), w.sec, "symbols-wrong", "%s symbol %zu: section", how, k); EQ(s[k].get_rva(), w.rva, "symbols-wrong", "%s symbol %zu: address", how, k); } }
            count("coff-symbols", s.size()); }
    });
    count("records-compared"); return pay;
}
static u32 fileOff(const Img& im, u32 rva) { const RSec* s = im.secAt(rva); return s ? static_cast<u32>(down(s->rawptr, im.h[FA]) + (rva - s->va)) : rva; }
void run_case(Rng& r, u64 idx) {
    GenOpt o; o.minSecs = 1; o.maxSecs = 4; o.maxSecData = r.chance(30) ? 6000 : 1500; Img im = genImg(r, o); if(im.ndirs() <= D_DEBUG) { im.h[NRVA] = 16; Rng r2(idx); layout(im, r2, false); }
    bool hdr = r.chance(40); if(hdr) { im.hdrtail.resize(im.hdrtail.size() + r.below(800), '\0'); Rng r2(idx); layout(im, r2, false); }
    Arena a(im, r); if(hdr) a.withHeaders();
    std::vector<Ent> es; u64 n = r.chance(5) ? 0 : 1 + r.below(r.chance(5) ? 70 : r.chance(15) ? 12 : 4); bool some = false;
    for(u64 i = 0; i < n; ++i) {
        Ent e = gen(r); note_input(e.data);
        if(e.data.empty()) { e.rva = r.chance(50) ? 0 : r.u32v(); e.ptr = e.type == 1 || e.type == 2 || e.type == 4 || r.chance(50) ? 0 : r.u32v(); if(e.type > 4 && r.chance(50)) e.size = r.u32v(); }
        else if(r.chance(n > 12 ? 10 : 60)) { e.rva = a.place(e.data, 1); e.ptr = fileOff(im, e.rva); if(r.chance(10)) e.rva = 0; count(e.ptr < im.h[SIZEHDR] ? "payloads-in-headers" : "payloads-in-sections"); }
        else { e.ptr = static_cast<u32>(im.file().size()); im.overlay += e.data; if(r.chance(10)) e.rva = r.u32v(); count("payloads-outside-sections"); }
        es.push_back(e); some |= e.pay != NONE;
        if(e.data.size() && r.chance(8)) { // another entry naming the same place: without data, or with the same data again
            Ent q = e; q.ts = r.edge32(); if(r.chance(50)) { q.pay = NONE; q.data.clear(); q.size = 0; count("empty-entries-naming-data"); } else count("entries-sharing-data");
            es.push_back(q); if(r.chance(50)) std::swap(es[es.size() - 1], es[es.size() - 2]); }
    }
    n = es.size();
    Bytes dir; for(const Ent& e : es) { put32(dir, e.chars); put32(dir, e.ts); put16(dir, e.maj); put16(dir, e.min); put32(dir, e.type); put32(dir, e.size); put32(dir, e.rva); put32(dir, e.ptr); }
    if(n) {
        im.dir[D_DEBUG][1] = static_cast<u32>(dir.size()); if(r.chance(10)) im.dir[D_DEBUG][1] = static_cast<u32>(dir.size());
        if(r.chance(40)) { const RSec* s = 0; for(const RSec& x : im.secs) if(x.data.size() && (!s || r.chance(50))) s = &x; if(!s) throw CaseSkip(); im.dir[D_DEBUG][0] = a.allocIn(*s, static_cast<u32>(dir.size()), 1); } else im.dir[D_DEBUG][0] = a.alloc(static_cast<u32>(dir.size()), 1);
        a.write(im.dir[D_DEBUG][0], dir);
        const RSec* s = im.secAt(im.dir[D_DEBUG][0]); if(s && im.dir[D_DEBUG][0] - s->va + dir.size() == s->span(static_cast<u32>(im.h[SA]))) count("directories-ending-their-section");
    } else if(r.chance(50)) im.dir[D_DEBUG][1] = r.u32v();
    Bytes f = im.file(); note_input(f);
    debug_info_list l; bool pay = r.chance(90);
    mustWork("read-refused", "reading the debug directory of " + im.describe(), [&] { pe_base p = openPe(f, false, pay); CHECK(p.has_debug() == (n != 0), "presence-wrong", "has_debug"); if(r.chance(20)) { pe_base q(p); l = get_debug_information(q); count("read-from-copies"); } else l = get_debug_information(p); });
    CHECK(l.size() == n, "entries-wrong", "%zu records for %llu entries (%s)", l.size(), (unsigned long long)n, im.describe().c_str());
    for(size_t i = 0; i < n; ++i) compare(l[i], es[i], pay, "read");
    if(some && pay) nontrivial(fnv(f)); count("directories-read");
    if(!n) return;
    // copies are equal and independent
    std::vector<std::pair<debug_info*, size_t> > live; std::vector<bool> none;
    for(u64 k = 1 + r.below(8); k; --k) {
        size_t i = r.below(n);
        switch(live.empty() ? 0 : r.below(5)) {
        case 0: { debug_info* d = r.chance(30) ? new debug_info() : 0; if(d) *d = l[i]; else d = new debug_info(l[i]); live.push_back(std::make_pair(d, i)); break; }
        case 1: { auto& x = r.pick(live); *x.first = l[i]; const_cast<std::pair<debug_info*, size_t>&>(x).second = i; break; }
        case 2: { auto& x = live[r.below(live.size())]; const auto& y = live[r.below(live.size())]; *x.first = *y.first; x.second = y.second; if(&x == &y) count("self-assignments"); break; }
        case 3: { size_t q = r.below(live.size()); delete live[q].first; live.erase(live.begin() + static_cast<long>(q)); break; }
        default: { debug_info t(l[i]); if(r.chance(50)) t.set_advanced_debug_info(pdb_7_0_info()); else if(r.chance(50)) t.set_advanced_debug_info(misc_debug_info()); else t.set_advanced_info_type(debug_info::advanced_info_codeview_5_0); const debug_info& same = t; t = same; if(r.chance(50)) { debug_info u(t); t = l[i]; } break; }
        }
        for(auto& x : live) compare(*x.first, es[x.second], pay, "copied"); for(size_t j = 0; j < n; ++j) compare(l[j], es[j], pay, "copied from");
    }
    for(auto& x : live) delete x.first;
    count("copies-compared");
}
