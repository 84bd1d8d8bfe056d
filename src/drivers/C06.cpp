// Determinism: repeated worlds with different garbage in fresh memory, repeated writes, fixed points
#include "../sweep.h"
#include <alloca.h>
extern const char* const PROPERTY = "C06";
extern const char* const RULE = "each case replays one random history (open or create an image, run all readers, random section, directory and typed-resource edits, writes) twice with different garbage filled into every fresh heap block and over the unused stack, and compares every observation and written byte; then writes the same object twice (also after other data in a stream and to a stream that cannot be positioned), and reopens and rewrites the file with the same options expecting identical bytes; repeated under valgrind, where using an undefined value is an error; non-trivial: a file was written; distinct by the bytes written";
u64 num_cases(bool t) { return t ? 600000 : 14000; }
void setup() { realFiles(); }
static volatile char g_keep;
__attribute__((noinline)) static void paint(int pat, size_t n) { volatile char* p = static_cast<volatile char*>(alloca(n)); for(size_t i = 0; i < n; ++i) p[i] = static_cast<char>(pat); g_keep = p[n / 2]; }
// a stream which can only be written to, like a pipe
struct Pipe : std::streambuf { Bytes got; int_type overflow(int_type c) override { if(c != traits_type::eof()) got.push_back(static_cast<char>(c)); return 0; } std::streamsize xsputn(const char* p, std::streamsize n) override { got.append(p, static_cast<size_t>(n)); return n; } };
struct Opt { bool strip, hdrs, bound; };
struct World { Obs o; Bytes last; Opt opt; bool wrote, lost;   // lost: the bound import directory is neither in the headers nor in a section
    std::string log; };
static void add(World& w, const char* what, const std::string& v) { w.o.push_back(std::make_pair(what, v)); }
static Opt genOpt(Rng& r) { Opt o; o.strip = r.chance(20); o.hdrs = r.chance(85); o.bound = r.chance(80); return o; }
static bool lostBound(const pe_base& p) {
    if(!p.has_bound_import()) return false;
    u64 a = p.get_directory_rva(D_BOUND), e = a + p.get_directory_size(D_BOUND); if(e <= p.get_full_headers_data().size()) return false;
    for(const section& s : p.get_image_sections()) if(a >= s.get_virtual_address() && e <= static_cast<u64>(s.get_virtual_address()) + s.get_aligned_virtual_size(p.get_section_alignment())) return false;
    return true;
}
static World world(Rng r, int fill) {
    World w; w.wrote = w.lost = false; alloc::fill = fill; auto pt = [&] { paint(fill, 24000); };
    Img im; Bytes f; bool mem = false; u64 src = r.below(10);
    if(src == 0) { const Bytes& b = realFiles()[r.below(realFiles().size())].second; if(b.size() > 120000) throw CaseSkip(); f = b; }
    else if(src < 8) { Rich x = richImage(r); f = x.im.file(); if(r.chance(8) && dumpable(x.im)) { f = dumpImage(x.im, r); mem = true; } else if(r.chance(30)) f = mutateImage(r, f, x.regions); }
    u32 sa = 0x200u << r.below(5); bool dll = r.chance(50), p64 = r.chance(50);
    pt();
    std::unique_ptr<pe_base> p;
    try { if(src >= 8) { if(p64) p.reset(new pe_base(pe_properties_64(), sa, dll)); else p.reset(new pe_base(pe_properties_32(), sa, dll)); } else { note_input(f); p.reset(new pe_base(openPe(f, mem))); } }
    catch(const std::exception& e) { add(w, "open", std::string("refused ") + e.what()); return w; }
    u64 rounds = 1 + r.below(2);
    for(u64 k = 0; k < rounds; ++k) {
        pt(); Obs a = observe(*p); w.o.insert(w.o.end(), a.begin(), a.end());
        for(u64 n = r.below(5); n; --n) { pt(); std::string t; 
            if(r.chance(15) && p->get_number_of_rvas_and_sizes() == 16) { // typed resources
                resource_directory root; try { root = get_resources(*p); } catch(const pe_exception&) {} if(r.chance(60)) root = typedTree(r); editTyped(r, root, 1 + r.below(4)); add(w, "tree", observeTree(root)); Obs b = observeTyped(root); w.o.insert(w.o.end(), b.begin(), b.end());
                try { section s; s.set_raw_data(Bytes(1, 'x')); s.set_name("res"); section& g = p->add_section(s); rebuild_resources(*p, root, g, r.below(40)); t = "typed resources"; } catch(const pe_exception& e) { t = std::string("typed resources refused ") + e.what(); } }
            else t = randomEdit(r, *p);
            add(w, "edit", t); w.log += t + "; "; }
        w.opt = genOpt(r); pt(); w.lost = lostBound(*p);
        try { w.last = writePe(*p, w.opt.strip, w.opt.hdrs, w.opt.bound); add(w, "file", w.last); w.wrote = true; w.log += strf("write(strip %d, headers %d, bound %d); ", w.opt.strip, w.opt.hdrs, w.opt.bound);
            pt(); Bytes again = writePe(*p, w.opt.strip, w.opt.hdrs, w.opt.bound); CHECK(again == w.last, "second-write", "%s the second write differs: %s", w.log.c_str(), diffAt(again, w.last).c_str()); count("second-writes");
            if(r.chance(40)) { // where the bytes go does not matter
                Bytes pre = r.bytes(1 + r.below(r.chance(20) ? 5000 : 600)); std::stringstream o(pre, std::ios::in | std::ios::out | std::ios::binary); o.seekp(0, std::ios::end); if(r.chance(50)) o.setstate(r.chance(50) ? std::ios::eofbit : std::ios::failbit | std::ios::eofbit); /* as after reading it to its end */ rebuild_pe(*p, o, w.opt.strip, w.opt.hdrs, w.opt.bound);
                Bytes g = o.str(); CHECK(g.substr(0, pre.size()) == pre && g.substr(pre.size()) == w.last, "write-after-prefix", "%s written after %zu other bytes: %s", w.log.c_str(), pre.size(), diffAt(g.substr(pre.size()), w.last).c_str());
                Pipe b; std::ostream q(&b); rebuild_pe(*p, q, w.opt.strip, w.opt.hdrs, w.opt.bound); CHECK(b.got == w.last, "write-to-pipe", "%s written to a stream that cannot be positioned: %s", w.log.c_str(), diffAt(b.got, w.last).c_str());
                struct Full : std::streambuf { size_t room; int_type overflow(int_type c) override { if(!room) return traits_type::eof(); --room; return c == traits_type::eof() ? 0 : c; } } full; full.room = r.below(w.last.size()); std::ostream z(&full); // a full disk must show in the stream
                try { rebuild_pe(*p, z, w.opt.strip, w.opt.hdrs, w.opt.bound); CHECK(!z.good(), "lost-write-unnoticed", "%s: stream refused bytes after %zu, but is good", w.log.c_str(), full.room); } catch(const pe_exception&) {}
                CHECK(writePe(*p, w.opt.strip, w.opt.hdrs, w.opt.bound) == w.last, "write-after-failure", "%s: file differs after a failed write", w.log.c_str()); count("other-streams"); } }
        catch(const pe_exception& e) { add(w, "file", std::string("refused ") + e.what()); w.wrote = false; w.log += strf("write refused (%s); ", e.what()); }
    }
    if(r.chance(20)) { pt(); Obs z = observeDefaults(); w.o.insert(w.o.end(), z.begin(), z.end()); }
    // checksum and entropy
    if(w.wrote) { std::istringstream s(w.last); pt(); try { add(w, "checksum", strf("%x", calculate_checksum(s))); } catch(const pe_exception&) { add(w, "checksum", "refused"); } s.clear(); s.seekg(0); pt(); try { add(w, "entropy", strf("%.17g", entropy_calculator::calculate_entropy(s))); } catch(const pe_exception&) {} }
    return w;
}
void run_case(Rng& r, u64 idx) {
    Rng k = r; World a = world(k, 0x5A); World b = world(k, 0xC3); alloc::fill = -1; count("histories-compared"); count("observations-compared", a.o.size());
    std::string d = diffObs(a.o, b.o); CHECK(d.empty(), "depends-on-garbage", "%s results depend on the contents of uninitialised memory: %s", a.log.c_str(), d.c_str());
    if(!a.wrote) return;
    nontrivial(fnv(a.last)); if(idx < 40) sample(a.log.substr(0, 500));
    if(a.last.size() > 400000 || (a.lost && a.opt.bound)) return;
    try { pe_base p = openPe(a.last);
        // automatic header sizing was turned off and the directory written among the headers is not inside them: a reader cannot find it
        if(!a.opt.hdrs && a.opt.bound && p.has_bound_import() && static_cast<u64>(p.get_directory_rva(D_BOUND)) + p.get_directory_size(D_BOUND) > p.get_full_headers_data().size()) { count("bound-imports-outside-headers"); return; }
        Bytes again = writePe(p, a.opt.strip, a.opt.hdrs, a.opt.bound); CHECK(again == a.last, "fixed-point", "%s reopened and rewritten: %s", a.log.c_str(), diffAt(again, a.last).c_str()); count("reopened-and-rewritten"); }
    catch(const pe_exception& e) { count("not-reopenable"); }
}
