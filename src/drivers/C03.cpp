// Load fidelity and refusal of malformed files
#include "../lib.h"
#include <algorithm>
extern const char* const PROPERTY = "C03";
extern const char* const RULE = "each case generates a well-formed PE32/PE32+ file from an independent model (layout, alignments, sections, stub, directories, overlay), opens it as a file and as a memory dump and compares every observable, then applies one rule-breaking change per corruption kind; real files of the repository are cases too; non-trivial: at least one section with data; distinct by file hash";
u64 num_cases(bool t) { return t ? 400000 : 12000; }
void setup() { realFiles(); }

static void checkHeaders(const pe_base& p, const Img& im, const Bytes& f, bool mem, bool unaligned = false) {
    compareImage(p, im, "load-mismatch");
    const pe_win::image_dos_header& d = p.get_dos_header();
    Bytes db(reinterpret_cast<const char*>(&d), 64), want = f.substr(0, 64);
    CHECK(db == want, "load-mismatch", "DOS header: %s", diffAt(db, want).c_str());
    EQ(p.get_pe_header_start(), im.lfanew(), "load-mismatch", "PE header position");
    CHECK(p.get_stub_overlay() == im.stub, "load-mismatch", "stub: %s", diffAt(p.get_stub_overlay(), im.stub).c_str());
    u64 hl = std::min<u64>(im.h[SIZEHDR], f.size());
    CHECK(p.get_full_headers_data() == f.substr(0, hl), "load-mismatch", "header bytes: %s", diffAt(p.get_full_headers_data(), f.substr(0, hl)).c_str());
    if(!mem && !unaligned) {
        u64 end = 0; bool any = false;
        for(const RSec& s : im.secs) if(s.rawsize) { any = true; end = std::max<u64>(end, static_cast<u64>(s.rawptr) + s.rawsize); }
        if(any) EQ(p.has_overlay(), f.size() > end, "load-overlay", "overlay present (file %zu, data ends %llu)", f.size(), (unsigned long long)end);
        else if(im.secs.empty()) EQ(p.has_overlay(), false, "load-overlay", "overlay of an image without sections");
    }
}
static void refuse(const char* what, const Bytes& f) {
    note_input(f); count("refusals-tried");
    mustRefuse("accepted-malformed", what, [&] { openPe(f); });
}
void run_case(Rng& r, u64 idx) {
    const auto& rf = realFiles();
    if(idx < rf.size()) {
        const Bytes& f = rf[idx].second; note_input(f);
        Parsed q = parse(f, false);
        CHECK(q.ok(), "harness", "reference cannot parse %s: %s", rf[idx].first.c_str(), q.err.c_str());
        pe_base p = openPe(f);
        Img im = q.im; if(im.h[NRVA] > 16) im.h[NRVA] = 16;
        checkHeaders(p, im, f, false);
        count("real-files"); nontrivial(fnv(f)); return;
    }
    GenOpt o; o.zeroVsize = true;
    Img im = genImg(r, o);
    for(u32 i = 0; i < im.ndirs(); ++i) if(i != D_DEBUG && r.chance(50)) { im.dir[i][0] = r.edge32(); im.dir[i][1] = r.edge32(); }
    // the loader rounds a section's file offset down to the file alignment
    bool unal = false; if(im.h[FA] >= 0x200 && r.chance(20)) for(RSec& s : im.secs) if(s.rawsize && r.chance(60)) { s.rawptr += static_cast<u32>(1 + r.below(0x1FF)); unal = true; }
    if(unal) count("unaligned-file-offsets");
    bool manyDirs = im.h[NRVA] == 16 && r.chance(10);
    Bytes f = im.file();
    note_input(f);
    if(manyDirs) { // more than sixteen declared: treated as sixteen
        u32 o2 = im.lfanew() + (im.pe64 ? 132 : 116); wrn(f, o2, 17 + r.below(1000), 4);
    }
    {
        std::istringstream s(f);
        EQ(pe_base::get_pe_type(s) == pe_type_64, im.pe64, "kind-detection", "kind");
        pe_base p = openPe(f, false, r.chance(50));
        // header bytes hold the stored count
        Img e = im; compareImage(p, e, "load-mismatch"); checkHeaders(p, im, f, false, unal);
        count("opened"); count("sections", im.secs.size());
    }
    bool any = false; for(const RSec& s : im.secs) any |= s.rawsize != 0;
    if(any) { nontrivial(fnv(f)); if(idx < 40) sample(im.describe()); }
    // memory dump of the same image: sections are found at their addresses
    if(im.h[SIZEIMG] < (1u << 20)) {
        Img d = im;
        bool ok = true;
        for(RSec& s : d.secs) { if(static_cast<u64>(s.rawptr) + s.rawsize > up(im.h[SIZEIMG], im.h[SA])) ok = false; }
        if(ok) {
            Bytes m = dumpImage(d, r); note_input(m);
            for(RSec& s : d.secs) if(s.rawsize) s.data = m.substr(s.va, s.rawsize);
            pe_base p = openPe(m, true);
            checkHeaders(p, d, m, true);
            count("dumps-opened");
        }
    }
    // file data larger than the mapped section: the stored bytes are there up to the virtual size, the rest of the image is untouched
    if(r.chance(20)) { std::vector<size_t> c; for(size_t i = 0; i < im.secs.size(); ++i) if(im.secs[i].rawsize && im.secs[i].vsize) c.push_back(i);
        if(!c.empty() && !unal) { Img g = im; g.overlay.clear(); RSec& s = g.secs[r.pick(c)]; u32 vs = s.vsize; s.data += r.bytes(up(vs, im.h[SA]) + 1 + r.below(3 * im.h[SA]) - std::min<u64>(s.data.size(), up(vs, im.h[SA]))); s.rawsize = static_cast<u32>(s.data.size()); Rng r2(idx); layout(g, r2, false); s.vsize = vs;
            size_t at = static_cast<size_t>(&s - &g.secs[0]); Bytes b = g.file(); note_input(b);
            mustWork("open-refused", "section with more file data than mapped size, " + g.describe(), [&] { pe_base p = openPe(b); const section_list& l = p.get_image_sections(); EQ(l.size(), g.secs.size(), "load-mismatch", "sections");
                for(size_t i = 0; i < l.size(); ++i) { const RSec& m = g.secs[i]; Bytes d = l[i].get_raw_data(); EQ(l[i].get_virtual_address(), m.va, "load-mismatch", "section %zu address", i); EQ(l[i].get_aligned_virtual_size(p.get_section_alignment()), m.span(static_cast<u32>(im.h[SA])), "load-mismatch", "section %zu mapped size", i);
                    if(i != at) CHECK(d == m.data, "load-mismatch", "section %zu bytes: %s", i, diffAt(d, m.data).c_str());
                    else { CHECK(d.size() >= vs && d.size() <= m.data.size() && d == m.data.substr(0, d.size()), "load-mismatch", "section %zu with %u of %zu bytes mapped: %zu read, %s", i, vs, m.data.size(), d.size(), diffAt(d, m.data).c_str()); Bytes v = l[i].get_virtual_data(p.get_section_alignment()); CHECK(v.size() >= vs, "load-mismatch", "section %zu mapped view of %zu bytes", i, v.size()); } }
                EQ(p.has_overlay(), false, "load-overlay", "overlay although all data belongs to sections"); });
            count("file-data-beyond-mapped-size"); } }
    // single rule-breaking changes
    if(idx % 3) return;
    if(manyDirs) f = im.file();
    u32 nt = im.lfanew();
    auto hdr = [&](HF k) { return nt + (im.pe64 ? HFI[k].off64 : HFI[k].off32); };
    auto with = [&](u64 off, u64 v, int n) { Bytes g = f; wrn(g, off, v, n); return g; };
    refuse("MZ signature", with(0, r.chance(50) ? 0x5a4c : 0x4d5a, 2));
    refuse("header position not a multiple of four", with(60, nt + 1 + r.below(3), 4));
    refuse("header position beyond the file", with(60, up(f.size(), 4) + 4 * r.below(1000), 4));
    refuse("negative header position", with(60, 0x80000000u + 4 * r.below(1000), 4));
    refuse("PE signature", with(nt + r.below(4), 0x11, 1));
    refuse("magic", with(nt + 24, r.chance(50) ? 0x107 : 0x30b, 2));
    refuse("97 sections", with(hdr(NSEC), 97 + r.below(1000), 2));
    { u32 bad = r.chance(50) ? 0x1001 : 0x3000; refuse("section alignment not a power of two", with(hdr(SA), bad, 4)); }
    if(im.h[SA] != im.h[FA] || im.h[FA] >= 0x200) refuse("file alignment not a power of two", with(hdr(FA), im.h[FA] + 1 + r.below(0x1FE), 4));
    refuse("file alignment above section alignment", with(hdr(FA), im.h[SA] * 2, 4));
    if(im.h[SA] > 0x200) refuse("file alignment below 512", with(hdr(FA), 1u << r.below(9), 4));
    refuse("zero size of image", with(hdr(SIZEIMG), 0, 4));
    refuse("both alignments zero", [&] { Bytes g = f; wrn(g, hdr(SA), 0, 4); wrn(g, hdr(FA), 0, 4); return g; }());
    u32 st = im.sectabEnd() - static_cast<u32>(40 * im.secs.size());
    if(!im.secs.empty()) {
        size_t k = r.below(im.secs.size()); u32 so = st + static_cast<u32>(40 * k);
        refuse("headers larger than the first section address", with(hdr(SIZEHDR), im.secs[0].va + 1 + r.below(5), 4));
        refuse("section beyond the image size", with(hdr(SIZEIMG), im.h[SIZEIMG] - im.h[SA] * (1 + r.below(2)), 4));
        { Bytes g = f; wrn(g, so + 8, 0, 4); wrn(g, so + 16, 0, 4); refuse("section with both sizes zero", g); }
        refuse("section larger than two gigabytes", with(so + 8, 0x80000001u + r.below(1000), 4));
        refuse("section address plus size wraps", [&] { Bytes g = f; wrn(g, so + 12, 0xFFFFF000u, 4); wrn(g, so + 8, 0x2000, 4); return g; }());
        refuse("section address moved", with(so + 12, im.secs[k].va + im.h[SA], 4));
        if(im.secs[k].rawsize) {
            refuse("section data beyond the file", with(so + 20, up(f.size(), im.h[FA]) + im.h[FA] * r.below(5), 4));
            refuse("raw range wraps", with(so + 20, 0xFFFFFFFFu - r.below(im.secs[k].rawsize), 4));
        }
        refuse("section table cut off", f.substr(0, st + r.below(40 * im.secs.size())));
        bool lastData = false; u64 end = 0; for(const RSec& s : im.secs) if(s.rawsize && s.vsize) { lastData = true; end = down(s.rawptr, im.h[FA]) + s.rawsize; }
        if(lastData) refuse("last section data cut off", f.substr(0, end - 1 - r.below(3)));
        if(im.secs.size() > 1) { size_t j = 1 + r.below(im.secs.size() - 1); u32 o2 = st + static_cast<u32>(40 * j);
            refuse("gap or overlap in section addresses", with(o2 + 12, r.chance(50) ? im.secs[j].va - im.h[SA] : im.secs[j].va - 1, 4)); }
    }
    refuse("optional header cut off", f.substr(0, nt + 24 + r.below(im.optFixed())));
    if(im.ndirs()) refuse("directories cut off", f.substr(0, nt + 24 + im.optFixed() + r.below(8 * im.ndirs())));
    refuse("DOS header cut off", f.substr(0, r.below(64)));
    refuse("kind mismatch with declared reader", [&] { return Bytes("MZ"); }());
    note_input(f);
    mustRefuse("accepted-wrong-kind", "opening with the other kind's properties", [&] { std::istringstream s(f); if(im.pe64) pe_base p(s, pe_properties_32(), false); else pe_base p(s, pe_properties_64(), false); });
}
