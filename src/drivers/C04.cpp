// Rebuilding preserves the mapped image
#include "../lib.h"
#include <algorithm>
extern const char* const PROPERTY = "C04";
extern const char* const RULE = "each case opens a generated (or shipped real) image as file or memory dump, or copies/edits one, rebuilds it with random options and compares the written file, through an independent parser and loader model and through the library, with the image in memory; non-trivial: image with section data; distinct by written file and options";
u64 num_cases(bool t) { return t ? 800000 : 40000; }
void setup() { realFiles(); }

struct Snap { Img im; Bytes bound; bool boundInHdr; };
static Img snapshot(const pe_base& p) {
    Img im; im.pe64 = p.get_pe_type() == pe_type_64;
    Bytes nt(p.get_nt_headers_ptr(), p.get_sizeof_nt_header());
    for(int i = 0; i < NHF; ++i) { int o = im.pe64 ? HFI[i].off64 : HFI[i].off32, s = im.pe64 ? HFI[i].size64 : HFI[i].size32; im.h[i] = s ? rdn(nt, o, s) : 0; }
    for(u32 i = 0; i < im.ndirs(); ++i) { im.dir[i][0] = p.get_directory_rva(i); im.dir[i][1] = p.get_directory_size(i); }
    im.dos = Bytes(reinterpret_cast<const char*>(&p.get_dos_header()), 64);
    im.stub = p.get_stub_overlay();
    for(const section& s : p.get_image_sections()) {
        RSec m; const pe_win::image_section_header& h = s.get_raw_header();
        m.name = Bytes(reinterpret_cast<const char*>(h.Name), 8); m.va = h.VirtualAddress; m.vsize = h.Misc.VirtualSize; m.rawsize = h.SizeOfRawData; m.rawptr = h.PointerToRawData;
        m.relptr = h.PointerToRelocations; m.lineptr = h.PointerToLinenumbers; m.nrel = h.NumberOfRelocations; m.nline = h.NumberOfLinenumbers; m.chars = h.Characteristics;
        m.data = s.get_raw_data();
        im.secs.push_back(m);
    }
    return im;
}
void run_case(Rng& r, u64 idx) {
    const auto& rf = realFiles();
    Bytes f; bool mem = false; Img gi;
    if(idx % 500 < rf.size()) f = rf[idx % 500].second;
    else {
        GenOpt o; o.zeroVsize = true;
        Img im = genImg(r, o);
        for(u32 i = 0; i < im.ndirs(); ++i) if(i != D_DEBUG && i != D_BOUND && r.chance(50)) { im.dir[i][0] = r.edge32(); im.dir[i][1] = r.edge32(); }
        if(im.ndirs() > D_BOUND && r.chance(40)) {
            if(r.chance(60) && im.h[SIZEHDR] > im.sectabEnd() + 16) { // somewhere in the header area
                u32 sz = static_cast<u32>(1 + r.below(std::min<u64>(200, im.h[SIZEHDR] - im.sectabEnd())));
                u32 at = static_cast<u32>(im.h[SIZEHDR] - sz - r.below(im.h[SIZEHDR] - im.sectabEnd() - sz + 1));
                im.dir[D_BOUND][0] = at; im.dir[D_BOUND][1] = sz;
                im.hdrtail = r.bytes(im.h[SIZEHDR] - im.sectabEnd());
            } else for(const RSec& s : im.secs) if(s.rawsize && r.chance(50)) { u32 sz = static_cast<u32>(r.range(1, s.rawsize)); im.dir[D_BOUND][0] = s.va + static_cast<u32>(r.below(s.rawsize - sz + 1)); im.dir[D_BOUND][1] = sz; break; }
        }
        f = im.file();
        if(r.chance(10) && im.h[SIZEIMG] < (1u << 19)) {
            bool ok = true; for(const RSec& s : im.secs) if(static_cast<u64>(s.rawptr) + s.rawsize > up(im.h[SIZEIMG], im.h[SA])) ok = false;
            if(ok) { f = dumpImage(im, r); mem = true; }
        }
    }
    note_input(f);
    pe_base p = openPe(f, mem);
    if(r.chance(10)) { Bytes st = r.bytes(r.below(200)); p.set_stub_overlay(st); }
    if(r.chance(5)) p.strip_stub_overlay();
    if(r.chance(5)) p.fill_stub_overlay('x');
    if(r.chance(10)) { // sections whose aligned size is larger than their data
        for(section& s : p.get_image_sections()) if(!s.empty()) { if(s.get_raw_data().size() > 1 && r.chance(50)) s.get_raw_data().resize(1 + r.below(s.get_raw_data().size() - 1)); }
        count("short-data");
    }
    if(r.chance(10)) for(section& s : p.get_image_sections()) if(r.chance(30)) s.get_virtual_data(p.get_section_alignment());   // mapped view is active while writing
    bool strip = r.chance(25), hdrs = r.chance(80), bound = r.chance(70);
    Img b = snapshot(p);
    Bytes hd = p.get_full_headers_data();
    bool hasBound = b.ndirs() > D_BOUND && b.dir[D_BOUND][0];
    bool boundHdr = hasBound && b.dir[D_BOUND][0] < hd.size();
    u64 need = (strip ? 16 : 64 + up(b.stub.size(), 4)) + 24 + b.optFixed() + 8 * b.ndirs() + 40 * b.secs.size() + (boundHdr && bound ? b.dir[D_BOUND][1] : 0);
    u64 hdrEnd = up(need, b.h[FA]);
    if(boundHdr && bound && static_cast<u64>(b.dir[D_BOUND][0]) + b.dir[D_BOUND][1] > hd.size()) { count("skip-bound-outside"); return; }
    if(hasBound && !boundHdr && bound) { // a directory that the section's data does not hold may be refused
        const RSec* s = b.secAt(b.dir[D_BOUND][0]);
        if(!s || b.dir[D_BOUND][0] - s->va + static_cast<u64>(b.dir[D_BOUND][1]) > s->data.size()) { count("skip-bound-outside"); return; }
    }
    if(!hdrs && need > b.h[SIZEHDR]) { count("skip-own-headers"); return; }
    if(hdrs && !b.secs.empty() && hdrEnd > b.secs[0].va) {
        mustRefuse("headers-do-not-fit-accepted", "headers longer than the first section address", [&] { writePe(p, strip, hdrs, bound); });
        count("refused-headers"); return;
    }
    Bytes out;
    mustWork("rebuild-failed", "rebuild", [&] { out = writePe(p, strip, hdrs, bound); });
    note_input(f + out);
    bool any = false; for(const RSec& s : b.secs) any |= s.rawsize != 0;
    if(any) { nontrivial(fnv(out, strip * 4 + hdrs * 2 + bound + 7)); if(idx % 500 == 20) sample(strf("strip=%d hdrs=%d bound=%d ", strip, hdrs, bound) + b.describe()); }
    Parsed q = parse(out, false);
    CHECK(q.ok(), "output-malformed", "independent parser: %s (%s)", q.err.c_str(), b.describe().c_str());
    Img& w = q.im;
    EQ(w.pe64, b.pe64, "kind-changed", "kind");
    for(int i = 0; i < NHF; ++i) {
        if(i == OPTSIZE || i == NSEC || i == SIZEIMG || (i == SIZEHDR && hdrs) || (i == BASECODE && strip)) continue;
        EQ(w.h[i], b.h[i], "header-field-changed", "field %s", HFI[i].name);
    }
    EQ(w.h[NSEC], b.secs.size(), "section-count", "section count");
    if(hdrs) EQ(w.h[SIZEHDR], hdrEnd, "size-of-headers", "SizeOfHeaders");
    EQ(w.h[SIZEIMG], b.secs.empty() ? w.h[SIZEHDR] : b.secs.back().va + b.secs.back().span(static_cast<u32>(b.h[SA])), "size-of-image", "SizeOfImage");
    EQ(w.h[OPTSIZE], b.optFixed() + 8 * b.ndirs(), "size-of-optional-header", "SizeOfOptionalHeader");
    for(u32 i = 0; i < b.ndirs(); ++i) {
        if(i == D_BOUND && boundHdr && bound) {
            EQ(w.dir[i][1], b.dir[i][1], "directory-changed", "bound import size");
            Bytes want = hd.substr(b.dir[i][0], b.dir[i][1]);
            CHECK(static_cast<u64>(w.dir[i][0]) + want.size() <= w.h[SIZEHDR] && out.substr(w.dir[i][0], want.size()) == want && w.dir[i][0] >= w.sectabEnd() - (strip ? 48 : 0), "bound-import-lost", "header-resident bound imports at %x: %s", w.dir[i][0], diffAt(out.substr(std::min<size_t>(w.dir[i][0], out.size()), want.size()), want).c_str());
            count("bound-in-headers"); continue;
        }
        EQ(w.dir[i][0], b.dir[i][0], "directory-changed", "directory %u address", i); EQ(w.dir[i][1], b.dir[i][1], "directory-changed", "directory %u size", i);
    }
    if(strip) CHECK(out.substr(0, 16) == b.dos.substr(0, 16), "dos-header-changed", "first 16 bytes: %s", diffAt(out.substr(0, 16), b.dos.substr(0, 16)).c_str());
    else {
        CHECK(out.substr(0, 60) == b.dos.substr(0, 60), "dos-header-changed", "%s", diffAt(out.substr(0, 60), b.dos.substr(0, 60)).c_str());
        Bytes st = b.stub; st.resize(up(st.size(), 4), '\0');
        CHECK(w.stub == st, "stub-changed", "%s", diffAt(w.stub, st).c_str());
    }
    for(size_t i = 0; i < b.secs.size(); ++i) {
        const RSec &x = w.secs[i], &y = b.secs[i];
        CHECK(x.name == y.name && x.vsize == y.vsize && x.va == y.va && x.rawsize == y.rawsize && x.chars == y.chars && x.relptr == y.relptr && x.lineptr == y.lineptr && x.nrel == y.nrel && x.nline == y.nline, "section-header-changed", "section %zu: va %x/%x vs %x/%x raw %x/%x flags %x/%x", i, x.va, y.va, x.vsize, y.vsize, x.rawsize, y.rawsize, x.chars, y.chars);
        Bytes want = y.data; want.resize(y.rawsize, '\0');
        CHECK(x.data == want, "section-bytes-changed", "section %zu: %s", i, diffAt(x.data, want).c_str());
    }
    Bytes m = mapImage(out, q);
    for(const RSec& y : b.secs) {
        u32 sp = y.span(static_cast<u32>(b.h[SA])); if(m.empty()) break;
        Bytes want = y.data; if(want.size() > y.rawsize) want.resize(y.rawsize); want.resize(sp, '\0');
        if(y.rawsize > sp) want.resize(sp);
        CHECK(m.compare(y.va, sp, want) == 0, "mapped-bytes-changed", "section at %x: %s", y.va, diffAt(m.substr(y.va, sp), want).c_str());
        count("mapped-bytes-compared", sp);
    }
    // the image object itself is still the same image
    Img a = snapshot(p);
    for(size_t i = 0; i < b.secs.size(); ++i) CHECK(a.secs[i].data == b.secs[i].data && a.secs[i].va == b.secs[i].va, "object-changed", "section %zu of the image object changed by writing", i);
    // and the library reads back what was written
    pe_base p2 = openPe(out);
    compareImage(p2, w, "reopen-mismatch");
    count("rebuilt");
}
