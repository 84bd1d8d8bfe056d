// Bound imports
#include "../gens.h"
extern const char* const PROPERTY = "C16";
extern const char* const RULE = "each case plants an independently encoded bound import directory (shared and padded names, forwarder references) in a section or between the section table and the end of the headers and requires the library to report it and a file rebuild (with every header option) to keep it readable, or rebuilds a random list into a random place and requires an independent decoder and the library to recover it, or asks for a list whose 16-bit offsets or counts cannot hold it (or just can); non-trivial: at least one module; distinct by file or list";
u64 num_cases(bool t) { return t ? 1600000 : 60000; }
void setup() {}
static void inHeaders(Rng& r) {
    GenOpt o; o.minSecs = 0; o.maxSecs = 4; o.fullDirs = true; o.odd = r.chance(50); Img im = genImg(r, o); KBound k; Ctx c; c.pe64 = k.pe64 = im.pe64; c.base = im.h[IMGBASE];
    k.gen(r, c, static_cast<int>(r.below(2))); Bytes b = k.encode(r);
    u64 room = im.h[SIZEHDR] - im.sectabEnd(); if(room < b.size()) { if(im.secs.empty() || im.h[SIZEHDR] + up(b.size(), im.h[FA]) > im.secs[0].va) throw CaseSkip(); im.h[SIZEHDR] += up(b.size(), im.h[FA]); for(RSec& s : im.secs) if(s.rawsize) s.rawptr += static_cast<u32>(up(b.size(), im.h[FA])); room = im.h[SIZEHDR] - im.sectabEnd(); im.hdrtail.clear(); }
    u32 at = static_cast<u32>(im.sectabEnd() + (r.chance(50) ? 0 : r.below(room - b.size() + 1))); if(r.chance(70)) { at = static_cast<u32>(up(at, 4)); if(at + b.size() > im.h[SIZEHDR]) at = im.sectabEnd(); }
    if(im.hdrtail.size() < room) im.hdrtail.resize(room, '\0');
    im.hdrtail.replace(at - im.sectabEnd(), b.size(), b);
    im.dir[D_BOUND][0] = at; im.dir[D_BOUND][1] = static_cast<u32>(b.size());
    Bytes f = im.file(); note_input(f); std::string e;
    { Parsed q = parse(f, false); if(!q.ok()) throw CaseSkip(); }
    pe_base p = openPe(f); if(r.chance(30)) p.set_stub_overlay(r.bytes(r.below(41))); // any length: the PE header stays aligned
    mustWork("read-refused", "header-resident " + k.text(), [&] { e = k.lib(p); }); CHECK(e.empty(), "read-wrong", "header-resident %s: %s", k.text().c_str(), e.c_str());
    bool strip = r.chance(40), hdrs = r.chance(85); Bytes g;
    for(int round = 0; round < 2; ++round) {
        try { g = writePe(p, strip, hdrs, true); } catch(const pe_exception& x) { CHECK(headersFull(p) || (strip && r.chance(0)), "write-failed", "writing header-resident %s: %s", k.text().c_str(), x.what()); count("headers-full"); return; }
        Parsed q = parse(g, hdrs); CHECK(q.ok(), "written-file-invalid", "%s", q.err.c_str());
        u32 d = q.im.dir[D_BOUND][0], n = q.im.dir[D_BOUND][1]; EQ(n, static_cast<u32>(b.size()), "entry-wrong", "size of the header-resident directory");
        CHECK(hdrs ? d >= q.sectab + 40 * q.im.secs.size() && d + n <= q.im.h[SIZEHDR] : true, "outside-headers", "directory %x+%x, headers of %llx", d, n, (unsigned long long)q.im.h[SIZEHDR]);
        Bytes head = g.substr(0, std::max<u64>(q.im.h[SIZEHDR], d + n)); // the loader maps SizeOfHeaders bytes
        if(!hdrs && d + n > q.im.h[SIZEHDR]) { count("headers-not-grown"); return; }
        std::string e2; try { e2 = k.decode(Mem(mapImage(g, q)), d, n); } catch(const Bad& x) { e2 = x.why; } CHECK(e2.empty(), "stored-wrong", "header-resident %s at %x: %s", k.text().c_str(), d, e2.c_str());
        // the image object still reads the same, too
        mustWork("object-reread-refused", k.text(), [&] { e2 = k.lib(p); }); CHECK(e2.empty(), "object-reread-wrong", "after writing: %s", e2.c_str());
        pe_base z = openPe(g); mustWork("reread-refused", k.text(), [&] { e2 = k.lib(z); }); CHECK(e2.empty(), "reread-wrong", "header-resident %s: %s", k.text().c_str(), e2.c_str());
        if(round == 0 && r.chance(50)) { p = z; if(r.chance(50)) strip = !strip; }
    }
    count("header-resident"); if(!k.l.empty()) nontrivial(fnv(f)); sample("header-resident " + k.text());
}
static void limits(Rng& r) {
    // strings start after all records; every name offset and reference count must fit 16 bits
    KBound k; int mode = static_cast<int>(r.below(4)); u32 n;
    if(mode == 0) { n = static_cast<u32>(r.range(1, 6)); for(u32 i = 0; i < n; ++i) { MBound b; b.ts = r.u32v(); b.name = r.ident(5000, 16000); k.l.push_back(b); } }
    else if(mode == 1) { n = static_cast<u32>(8192 - 8 + r.below(12)); for(u32 i = 0; i < n; ++i) { MBound b; b.ts = i; b.name = ""; b.name = "a"; k.l.push_back(b); } }
    else if(mode == 3) {   // the last name starts close to the limit
        n = static_cast<u32>(r.range(1, 4)); u64 used = 8 + 8 * (n + 1); for(u32 i = 0; i < n; ++i) { MBound b; b.ts = r.u32v(); b.name = r.ident(1, 3000); used += b.name.size() + 1; k.l.push_back(b); }
        u32 start = static_cast<u32>(r.range(65530, 65538)); k.l[0].name += std::string(start - used, 'x'); MBound b; b.ts = r.u32v(); b.name = r.ident(1, 300); k.l.push_back(b); if(r.chance(50)) { b = k.l.back(); k.l.pop_back(); k.l.back().refs.push_back(std::make_pair(b.name, b.ts)); }
    }
    else { MBound b; b.ts = 1; b.name = "m"; u32 refs = r.chance(50) ? static_cast<u32>(r.range(65530, 65540)) : static_cast<u32>(r.range(8180, 8195)); for(u32 i = 0; i < refs; ++i) b.refs.push_back(std::make_pair("r", i)); k.l.push_back(b); }
    u64 hdr = 8, last = 0; for(const MBound& b : k.l) hdr += 8 + 8 * b.refs.size();
    bool fits = true; u64 p = hdr; for(const MBound& b : k.l) { if(p > 65535 || b.refs.size() > 65535) fits = false; p += b.name.size() + 1; for(auto& q : b.refs) { if(p > 65535) fits = false; p += q.first.size() + 1; } } last = p;
    pe_base im = r.chance(50) ? pe_base(pe_properties_32(), 0x1000) : pe_base(pe_properties_64(), 0x1000); section s; s.set_name("b"); s.readable(true); s.get_raw_data().resize(1); im.add_section(s);
    std::string what = strf("%zu modules needing %llu bytes", k.l.size(), (unsigned long long)last);
    if(!fits) { mustRefuse("unrepresentable-accepted", what, [&] { rebuild_bound_imports(im, k.list(), im.get_image_sections()[0]); }); count("unrepresentable-refused"); }
    else { mustWork("rebuild-refused", what, [&] { rebuild_bound_imports(im, k.list(), im.get_image_sections()[0], static_cast<u32>(r.below(10))); }); k.rebuilt = true; std::string e = k.lib(im); CHECK(e.empty(), "object-reread-wrong", "%s: %s", what.c_str(), e.c_str()); checkStored(im, k, what.c_str()); count("limit-lists-kept"); }
    nontrivial(fnv(what));
}
void run_case(Rng& r, u64 idx) {
    KBound k; int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    if(idx % 200 == 7) { limits(r); return; }
    switch(idx % 3) { case 0: inHeaders(r); break; case 1: readScenario(r, k, size, r.chance(30)); break; default: writeScenario(r, k, size); }
}
