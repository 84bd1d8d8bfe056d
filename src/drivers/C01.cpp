// Hostile images: open and run every reader
#include "../sweep.h"
#include "pe_lib/pe_checksum.h"
#include <algorithm>
extern const char* const PROPERTY = "C01";
extern const char* const RULE = "each case takes a generated image with many directories, a shipped file, or raw bytes, applies hostile changes (field edges, shared and self-referring structures, truncation), opens it as file or memory dump and runs every directory reader, typed resource reader, accessor and address conversion under ASan+UBSan with allocation-balance and CPU-time monitors; non-trivial: the image opens and at least one directory reader returns values; distinct by file content";
u64 num_cases(bool t) { return t ? 3000000 : 60000; }
void setup() { realFiles(); alloc::single_cap = 64u << 20; alloc::total_cap = 256u << 20; alloc::track_leaks(true); }
void run_case(Rng& r, u64) {
    Bytes f; const auto& rf = realFiles();
    switch(r.chance(1) && r.chance(40) ? 20 : r.below(20)) {
    case 20: { // a resource directory nested far deeper than any real one
        GenOpt o; o.minSecs = 1; o.maxSecs = 1; o.fullDirs = true; o.emptySecs = o.zeroVsize = false; Img im = genImg(r, o); u32 n = static_cast<u32>(r.chance(70) ? 15000 + r.below(20000) : 200 + r.below(200)); bool named = r.chance(20); (void)named;
        RSec& s = im.secs[0]; s.data.assign(up(n * 24 + 64, im.h[FA]), '\0'); s.rawsize = static_cast<u32>(s.data.size()); s.vsize = s.rawsize; layout(im, r, false); im.dir[D_RESOURCE][0] = s.va; im.dir[D_RESOURCE][1] = n * 24;
        std::vector<u32> at(n + 1); for(u32 i = 0; i <= n; ++i) at[i] = i * 24; if(r.chance(30)) std::reverse(at.begin() + 1, at.end());
        for(u32 i = 0; i < n; ++i) { wrn(s.data, at[i] + 14, 1, 2); wrn(s.data, at[i] + 16, 1 + i % 3, 4); wrn(s.data, at[i] + 20, 0x80000000u | at[i + 1], 4); }
        f = im.file(); count("deep-resource-chains"); break; }
    case 0: f = r.bytes(r.below(400)); if(f.size() > 64 && r.chance(70)) { f[0] = 'M'; f[1] = 'Z'; wrn(f, 60, 64, 4); if(f.size() > 90) { memcpy(&f[64], "PE\0\0", 4); wrn(f, 88, r.chance(50) ? 0x10b : 0x20b, 2); } } break;
    case 1: { const Bytes& s = rf[r.below(rf.size())].second; Parsed q = parse(s, false); std::vector<Region> g; for(u32 i = 0; i < q.im.ndirs(); ++i) if(q.im.dir[i][0] && i != D_SECURITY) g.push_back(Region{q.im.dir[i][0], q.im.dir[i][0] + static_cast<u64>(std::min<u32>(std::max<u32>(q.im.dir[i][1], 64), 4096))}); if(s.size() > 200000) throw CaseSkip(); f = mutateImage(r, s, g); break; }
    default: { Rich x = richImage(r);
        if(r.chance(25) && x.im.ndirs() > D_RESOURCE) try { // typed resources
            resource_directory t = typedTree(r); MDir d = fromLib(t); sortDir(d); Arena a(x.im, r); plantResources(x.im, a, r, d); u32 v = x.im.dir[D_RESOURCE][0]; x.regions.push_back(Region{v, v + 1000u}); } catch(const CaseSkip&) {}
        if(r.chance(10) && dumpable(x.im)) f = dumpImage(x.im, r); else f = x.im.file();
        if(!r.chance(10)) f = mutateImage(r, f, x.regions); }
    }
    note_input(f);
    try {
        std::istringstream s(f);
        try { calculate_checksum(s); } catch(const std::exception&) {}
        s.clear(); s.seekg(0);
        try { pe_base::get_pe_type(s); } catch(const std::exception&) {}
        s.clear(); s.seekg(0);
        try { entropy_calculator::calculate_entropy(s); } catch(const std::exception&) {}
    } catch(const std::exception&) {}
    try {
        pe_base p = openPe(f, r.chance(15), r.chance(90)); count("opened");
        Obs o = observe(p); u64 w = workedObs(o); count("readers-returning-values", w); count("readers-refusing", o.size() - w);
        bool some = false; for(size_t i = 4; i < o.size(); ++i) if(!o[i].second.empty() && o[i].second.compare(0, 8, "refused:") && o[i].first != "entropy") { some = true; }
        if(some) nontrivial(fnv(f));
        touch(p, r);
    } catch(const std::exception&) { count("refused-to-open"); }
}
