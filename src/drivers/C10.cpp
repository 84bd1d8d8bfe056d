// Imports: planted directories read exactly; lists of new and existing libraries rebuilt with all settings
#include "../gens.h"
extern const char* const PROPERTY = "C10";
extern const char* const RULE = "each case either plants an independently encoded import directory (names, ordinals, bound and unbound tables, with and without lookup tables, pieces scattered over sections and headers) and requires the library to report it exactly, or rebuilds a list (new, or read from an image with imports and edited) with random settings and requires an independent decoder of the written file and the library to recover it; shipped images are read by both decoders and rebuilt; non-trivial: at least one library; distinct by file or list";
u64 num_cases(bool t) { return t ? 900000 : 36000; }
void setup() {}
static void existing(Rng& r, int size) {
    // an image with imports (planted or shipped), read, edited and rebuilt
    Bytes f; bool shipped = r.chance(8);
    if(shipped) { f = r.pick(realFiles()).second; if(f.size() > 250000) throw CaseSkip(); Parsed t = parse(f, false); if(!t.ok() || t.im.ndirs() < 13 || !t.im.dir[1][0] || t.im.secs.size() > 60) throw CaseSkip(); }
    else {
        GenOpt o; o.minSecs = 1; o.maxSecs = 4; o.maxSecData = size == 2 ? 12000 : 5000; o.fullDirs = true; Img im = genImg(r, o);
        KImports k; planted(r, im, k, size, false);
        if(r.chance(50)) { im.dir[D_IAT][0] = 0x1000; im.dir[D_IAT][1] = 8; }
        f = im.file();
    }
    note_input(f);
    Parsed q0 = parse(f, false); Mem m0(mapImage(f, q0)); bool pe64 = q0.im.pe64; MImports l = decodeImports(m0, q0.im.dir[1][0], pe64);
    pe_base p = openPe(f); imported_functions_list list = get_imported_functions(p);
    std::string e = diffImports(fromLib(list), l, 15); CHECK(e.empty(), "read-wrong", "reading imports: %s", e.c_str());
    count("existing-lists-read"); if(shipped) count("shipped-images");
    import_rebuilder_settings st; bool B = r.chance(75), S = r.chance(70), R = r.chance(50), F = r.chance(40), Z = r.chance(30);
    bool viaCtor = r.chance(30); if(viaCtor) { st = import_rebuilder_settings(true, r.chance(50)); }
    st.build_original_iat(B); st.save_iat_and_original_iat_rvas(S, R); st.fill_missing_original_iats(F); st.zero_directory_entry_iat(Z);
    CHECK(st.build_original_iat() == B && st.save_iat_and_original_iat_rvas() == S && st.rewrite_iat_and_original_iat_contents() == (S && R) && st.fill_missing_original_iats() == F && st.zero_directory_entry_iat() == Z, "settings-wrong", "import settings do not keep their values");
    if(!S) R = false;
    // which tables can be written in place
    auto inRaw = [&](u64 rva, u64 n) { for(const RSec& s : q0.im.secs) if(rva >= s.va && rva + n <= s.va + std::min<u64>(s.data.size(), s.span(q0.im.h[SA]))) return true; return false; };
    u64 w = pe64 ? 8 : 4;
    if(S && R) for(const MLib& b : l) if(!inRaw(b.iat, w * (b.f.size() + 1)) || (B && b.oft && !inRaw(b.oft, w * (b.f.size() + 1)))) throw CaseSkip();
    // tables used by two libraries, or overlapping strings, are left alone in shipped images
    if(S && R && shipped) for(const MLib& b : l) { if(b.oft == b.iat) throw CaseSkip(); }
    MImports want = l;
    // edits
    std::vector<bool> fresh(want.size(), false);
    if(r.chance(60)) {
        int n = 1 + r.below(3);
        for(int i = 0; i < n; ++i) {
            MImports a = genImports(r, pe64, 1, 6); size_t at = r.below(want.size() + 1);
            want.insert(want.begin() + at, a[0]); fresh.insert(fresh.begin() + at, true);
        }
    }
    for(size_t i = 0; i < want.size(); ++i) {
        if(r.chance(15)) want[i].ts = r.u32v();
        if(r.chance(15)) want[i].name = r.ident(1, 20);
        if(fresh[i]) continue;
        bool keep = S && !R;   // contents of saved tables are not rewritten
        if(!keep) { // existing tables may get fewer or other functions; new tables anything
            if(!want[i].f.empty() && r.chance(30)) want[i].f.erase(want[i].f.begin() + r.below(want[i].f.size()));
            if(!want[i].f.empty() && r.chance(30)) { MImports a = genImports(r, pe64, 1, 3); if(!a[0].f.empty()) { want[i].f[r.below(want[i].f.size())] = a[0].f[0]; } }
            if(!S && r.chance(30)) { MImports a = genImports(r, pe64, 1, 5); want[i].f.insert(want[i].f.end(), a[0].f.begin(), a[0].f.end()); }
        }
        if(r.chance(10)) { want[i].iat = 0; want[i].oft = 0; fresh[i] = true; }   // asked to get new tables
    }
    if(r.chance(10) && want.size() > 1) { size_t i = r.below(want.size()); want.erase(want.begin() + i); fresh.erase(fresh.begin() + i); }
    Bytes txt; u64 need = 20 * (want.size() + 1); for(const MLib& b : want) { need += b.name.size() + 1 + 2 * w * (b.f.size() + 1); for(const MFunc& x : b.f) need += x.name.size() + 3; }
    // a place that holds nothing yet
    { section s; s.set_name("new"); s.readable(true); s.get_raw_data().resize(1); if(r.chance(30)) s.get_raw_data() = r.nzbytes(1 + r.below(100)); p.add_section(s); }
    section& dst = p.get_image_sections().back(); u32 off = static_cast<u32>(r.below(120));
    bool save = r.chance(80); st.set_offset_from_section_start(off); st.auto_set_to_pe_headers(save); st.enable_auto_strip_last_section(r.chance(50));
    u32 iatDir[2] = { p.get_directory_rva(D_IAT), p.get_directory_size(D_IAT) };
    std::string what = strf("%zu libraries (build %d save %d rewrite %d fill %d) at %x+%x", want.size(), B, S, R, F, dst.get_virtual_address(), off);
    image_directory d; imported_functions_list out = toLib(want);
    mustWork("rebuild-refused", "rebuilding " + what, [&] { d = rebuild_imports(p, out, dst, st); });
    if(save) { EQ(p.get_directory_rva(D_IMPORT), d.get_rva(), "entry-wrong", "directory address of %s", what.c_str()); EQ(p.get_directory_size(D_IMPORT), d.get_size(), "entry-wrong", "directory size of %s", what.c_str()); }
    else { EQ(p.get_directory_rva(D_IMPORT), q0.im.dir[1][0], "entry-wrong", "directory address of %s without saving", what.c_str()); p.set_directory_rva(D_IMPORT, d.get_rva()); p.set_directory_size(D_IMPORT, d.get_size()); }
    EQ(p.get_directory_rva(D_IAT), save && Z ? 0 : iatDir[0], "iat-entry-wrong", "address table entry of %s (zero %d)", what.c_str(), Z);
    EQ(p.get_directory_size(D_IAT), save && Z ? 0 : iatDir[1], "iat-entry-wrong", "address table size of %s", what.c_str());
    auto verify = [&](const MImports& g, const char* how) {
        CHECK(g.size() == want.size(), "libraries-wrong", "%s, %s: %zu libraries", what.c_str(), how, g.size());
        for(size_t i = 0; i < g.size(); ++i) {
            bool saved = S && want[i].iat; int bits = 1 | 8;
            MImports a(1, g[i]), b(1, want[i]);
            if(saved) {
                EQ(g[i].iat, want[i].iat, "saved-table-moved", "%s, %s: address table of library %zu", what.c_str(), how, i);
                u32 o = !B ? 0 : want[i].oft;
                if(o || !(B && F)) EQ(g[i].oft, o, "saved-table-moved", "%s, %s: lookup table of library %zu", what.c_str(), how, i);
                else CHECK(g[i].oft != 0, "lookup-missing", "%s, %s: lookup table of library %zu was not created", what.c_str(), how, i);
            } else CHECK(B == (g[i].oft != 0), "lookup-wrong", "%s, %s: library %zu has lookup table %x", what.c_str(), how, i, g[i].oft);
            if(g[i].oft) bits |= 2;
            if(!saved || R) bits |= 16;
            if(saved && !R && !g[i].oft) { // names come from the untouched address table
                bool bound = false; for(size_t k = 0; k < want[i].f.size(); ++k) { u64 t = want[i].oft ? want[i].oft : want[i].iat; if(m0.rw(t + k * w, pe64) != m0.rw(want[i].iat + k * w, pe64)) bound = true; }
                if(bound) { count("bound-names-lost"); continue; }
            }
            std::string e = diffImports(a, b, bits);
            CHECK(e.empty(), "functions-wrong", "%s, %s: library %zu: %s", what.c_str(), how, i, e.c_str());
            count("libraries-checked"); count("functions-checked", want[i].f.size());
        }
    };
    // a saved bound table without lookup table can not be decoded by anyone
    bool lost = false;
    for(size_t i = 0; i < want.size(); ++i) if(S && want[i].iat && !R && (!B || (!want[i].oft && !F))) for(size_t k = 0; k < want[i].f.size(); ++k) { u64 t = want[i].oft ? want[i].oft : want[i].iat; if(m0.rw(t + k * w, pe64) != m0.rw(want[i].iat + k * w, pe64)) lost = true; }
    nontrivial(fnv(what) ^ fnv(f) ^ r.next());
    if(lost) { count("undecodable"); return; }
    mustWork("object-reread-refused", "reading " + what, [&] { verify(fromLib(get_imported_functions(p)), "on the image"); });
    if(headersFull(p)) { count("headers-full"); return; }
    Bytes o; mustWork("write-failed", "writing " + what, [&] { o = writePe(p); });
    Parsed q = parse(o, !shipped); CHECK(q.ok(), "written-file-invalid", "%s: %s", what.c_str(), q.err.c_str());
    try { verify(decodeImports(Mem(mapImage(o, q)), q.im.dir[1][0], pe64), "in the file"); } catch(const Bad& b) { fail("stored-wrong", "%s: %s", what.c_str(), b.why.c_str()); }
    mustWork("reread-refused", "reading back " + what, [&] { pe_base z = openPe(o); verify(fromLib(get_imported_functions(z)), "reopened"); });
    count("lists-rebuilt"); sample(what);
}
void run_case(Rng& r, u64 idx) {
    int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    if(idx < realFiles().size()) {
        const auto& f = realFiles()[idx]; Parsed q = parse(f.second, false); if(!q.ok() || q.im.ndirs() < 2 || !q.im.dir[1][0]) throw CaseSkip();
        note_input(f.second); MImports w; try { w = decodeImports(Mem(mapImage(f.second, q)), q.im.dir[1][0], q.im.pe64); } catch(const Bad&) { throw CaseSkip(); }
        pe_base p = openPe(f.second); MImports g; mustWork("read-refused", f.first, [&] { g = fromLib(get_imported_functions(p)); });
        std::string e = diffImports(g, w, 15); CHECK(e.empty(), "read-wrong", "%s: %s", f.first.c_str(), e.c_str()); count("shipped-read"); nontrivial(idx); return;
    }
    switch(idx % 4) {
    case 0: { // read
        GenOpt o; o.minSecs = 1; o.maxSecs = 5; o.maxSecData = size == 2 ? 14000 : 5000; o.odd = r.chance(50); Img im = genImg(r, o); if(im.ndirs() < 2) throw CaseSkip();
        KImports k; planted(r, im, k, size, r.chance(30)); if(r.chance(50)) trimZeros(im, r);
        Bytes f = im.file(); note_input(f);
        MImports g; bool dump = r.chance(10) && dumpable(im); Bytes src = dump ? dumpImage(im, r) : f;
        mustWork("read-refused", k.text(), [&] { pe_base p = openPe(src, dump); g = fromLib(get_imported_functions(p)); });
        std::string e = diffImports(g, k.l, 15); CHECK(e.empty(), "read-wrong", "%s%s: %s", k.text().c_str(), dump ? " (memory dump)" : "", e.c_str());
        count("lists-read"); if(!k.l.empty()) nontrivial(fnv(src)); if(idx < 200) sample("read " + k.text()); break; }
    case 1: { KImports k; writeScenario(r, k, size); break; }
    default: existing(r, size);
    }
}
