// The sample programs, run as they are (main renamed) on generated, edited, shipped and hostile files
#include "../gens.h"
#include "../sweep.h"
#include <cmath>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
extern const char* const PROPERTY = "C36";
extern const char* const RULE = "each case writes one file into an empty directory - an image carrying directories whose contents are known, a shipped image, or damaged or arbitrary bytes - and runs sample programs on it under the sanitizers: the reading ones must print what an independent decoding says, the editing ones must write a file that an independent loader maps as the original plus the edit; nothing else in the directory may change, and each run must end with the code that goes with its message; non-trivial: at least one program printed or wrote a result that was compared or a refusal; distinct by file";
u64 num_cases(bool t) { return t ? 300000 : 20000; }
#define SAMPLES(X) X(address_convertions) X(basic_dotnet_viewer) X(basic_info_viewer) X(bound_import_reader) X(debug_info_reader) X(entropy_calculator) X(exception_dir_reader) X(export_adder) X(exports_reader) X(full_pe_rebuilder) X(image_config_editor) X(import_adder) X(imports_reader) X(pe_config_reader) X(pe_realigner) X(pe_rebaser) X(pe_sections_reader) X(pe_stripper) X(relocation_adder) X(relocations_reader) X(resource_editor) X(resource_viewer) X(rich_overlay_stub_reader) X(section_adder) X(sections_and_addresses) X(tls_editor) X(tls_reader)
#define X(n) __attribute__((weak)) int sample_##n##_main(int, char**);
SAMPLES(X)
#undef X
namespace {
typedef int (*Main)(int, char**);
struct Prog { const char* name; Main f; const char* label; };
const std::vector<Prog>& progs() { static std::vector<Prog> v; if(v.empty()) {
#define X(n) if(&sample_##n##_main) v.push_back(Prog{#n, &sample_##n##_main, "run-" #n});
    SAMPLES(X)
#undef X
    } return v; }
const Prog* prog(const char* n) { for(const Prog& p : progs()) if(!strcmp(p.name, n)) return &p; return 0; }
struct Run { bool there; int rc; std::string out; bool wrote; Bytes file; std::wstring wide; Bytes icon; Run() : there(false), rc(0), wrote(false) {} bool refused() const { return rc != 0; } };
void store(const char* n, const Bytes& b) { std::ofstream o(n, std::ios::binary | std::ios::trunc); o.write(b.data(), static_cast<std::streamsize>(b.size())); }
bool load(const char* n, Bytes& b) { std::ifstream i(n, std::ios::binary); if(!i) return false; std::ostringstream o; o << i.rdbuf(); b = o.str(); return true; }
// one program on one file
Run run(const char* name, const Bytes& f, const char* input = "", bool absolute = false) {
    Run x; const Prog* p = prog(name); if(!p) { count("programs-missing"); return x; }
    x.there = true; unlink("new_in.bin"); store("in.bin", f);
    char cwd[4096]; std::string path = "in.bin"; if(absolute && getcwd(cwd, sizeof cwd)) path = std::string(cwd) + "/in.bin";
    std::vector<char> a0(name, name + strlen(name) + 1), a1(path.begin(), path.end()); a1.push_back(0); char* argv[3] = {&a0[0], &a1[0], 0};
    std::string in = std::string(name) == "resource_editor" ? path + "\n" : input;
    std::ostringstream co, ce; std::istringstream ci(in); std::ios keep(0), keepW(0); keep.copyfmt(std::cout); std::streambuf* o = std::cout.rdbuf(co.rdbuf()); std::streambuf* e = std::cerr.rdbuf(ce.rdbuf()); std::wostringstream cw; std::wios keepw(0); keepw.copyfmt(std::wcout); std::wstreambuf* w = std::wcout.rdbuf(cw.rdbuf()); std::streambuf* i = std::cin.rdbuf(ci.rdbuf()); std::cin.clear();
    std::string bad;
    try { x.rc = p->f(2, argv); } catch(const std::exception& ex) { bad = strf("%s ended with an exception: %s", name, ex.what()); }
    std::wcout.rdbuf(w); std::wcout.copyfmt(keepw); std::wcout.clear(); std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cin.rdbuf(i); std::cout.copyfmt(keep); std::cout.clear(); std::cin.clear();
    CHECK(bad.empty(), "uncaught-exception", "%s", bad.c_str());
    x.out = co.str(); x.wide = cw.str(); count("programs-run"); count(p->label);
    x.wrote = load("new_in.bin", x.file); Bytes back; load("in.bin", back);
    CHECK(back == f, "input-changed", "%s changed its input file: %s", name, diffAt(back, f).c_str());
    std::string other; if(DIR* d = opendir(".")) { while(dirent* z = readdir(d)) { std::string n = z->d_name; if(n != "." && n != ".." && n != "in.bin" && n != "new_in.bin") { if((n == "version_info.txt" || n == "strings.txt" || n == "main_icon.ico") && !strcmp(name, "resource_viewer")) { count("resource-files-written"); if(n == "main_icon.ico") load("main_icon.ico", x.icon); unlink(n.c_str()); } else other = n; } } closedir(d); }
    if(!other.empty()) { unlink(other.c_str()); fail("other-file", "%s left a file %s", name, other.c_str()); }
    bool err = x.out.find("Error: ") != std::string::npos; (void)err;
    CHECK(x.rc == 0 || x.rc == -1, "exit-code", "%s returned %d", name, x.rc);
    if(x.rc == 0) CHECK(x.wrote == (x.out.find("saved to new_in.bin") != std::string::npos), "message-wrong", "%s said '%s' and %s", name, x.out.substr(x.out.size() > 80 ? x.out.size() - 80 : 0).c_str(), x.wrote ? "wrote a file" : "wrote no file");
    if(x.refused()) count("refusals");
    return x;
}
std::string hx(u64 v) { return v ? strf("0x%llx", static_cast<unsigned long long>(v)) : "0"; }
void same(const Run& x, const std::string& want, const char* name, const std::string& what) {
    if(!x.there) return;
    size_t i = 0; while(i < x.out.size() && i < want.size() && x.out[i] == want[i]) ++i; size_t s = i > 60 ? i - 60 : 0;
    CHECK(x.out == want, "printed-wrong", "%s on %s: printed '...%s', expected '...%s'", name, what.c_str(), x.out.substr(s, 200).c_str(), want.substr(s, 200).c_str()); count("texts-compared"); count("bytes-of-text-compared", want.size());
}
std::string body(const Run& x) { size_t p = x.out.find("\n\n"); return p == std::string::npos ? x.out : x.out.substr(p + 2); }
// what the loader puts into the section's place
Bytes secMem(const Bytes& m, const RSec& s, u32 sa) { u64 lo = s.va, hi = std::min<u64>(m.size(), lo + s.span(sa)); return lo < hi ? m.substr(static_cast<size_t>(lo), static_cast<size_t>(hi - lo)) : Bytes(); }
struct Ed { size_t more; const char* last; int dir; bool keepBase; std::vector<std::pair<u64, u64> > free; Ed() : more(0), last(0), dir(-1), keepBase(true) {} };
// the written file is the original with the edit and nothing else
Parsed edited(const Run& x, const Bytes& f, const Parsed& a, const Ed& ed, const char* name) {
    Parsed b = parse(x.file, true); CHECK(b.ok(), "written-file-invalid", "file of %s: %s", name, b.err.c_str());
    CHECK(b.im.secs.size() == a.im.secs.size() + ed.more, "sections-wrong", "%s: %zu sections, had %zu", name, b.im.secs.size(), a.im.secs.size());
    u32 sa = static_cast<u32>(a.im.h[SA]); Bytes ma = mapImage(f, a), mb = mapImage(x.file, b);
    for(size_t i = 0; i < a.im.secs.size(); ++i) {
        const RSec& s = a.im.secs[i]; const RSec& t = b.im.secs[i];
        CHECK(s.va == t.va && s.chars == t.chars && s.span(sa) <= t.span(sa), "sections-wrong", "%s: section %zu was at %x+%x (%x), is at %x+%x (%x)", name, i, s.va, s.span(sa), s.chars, t.va, t.span(sa), t.chars);
        if(strcmp(name, "resource_editor")) CHECK(s.cname() == t.cname(), "sections-wrong", "%s renamed section %zu", name, i);
        Bytes p = secMem(ma, s, sa), q = secMem(mb, t, sa); q.resize(p.size(), '\0');
        for(auto& g : ed.free) for(u64 v = g.first; v < g.second; ++v) if(v >= s.va && v - s.va < p.size()) p[static_cast<size_t>(v - s.va)] = q[static_cast<size_t>(v - s.va)] = 0;
        CHECK(p == q, "memory-changed", "%s: section %zu at %x: %s", name, i, s.va, diffAt(q, p).c_str()); count("bytes-compared", p.size());
    }
    if(ed.more) CHECK(b.im.secs.back().cname() == ed.last, "sections-wrong", "%s: new section is called '%s'", name, b.im.secs.back().cname().c_str());
    for(u32 i = 0; i < 16; ++i) { if(static_cast<int>(i) == ed.dir || i == D_BOUND) continue; CHECK(b.im.dir[i][0] == a.im.dir[i][0] && b.im.dir[i][1] == a.im.dir[i][1], "entry-changed", "%s: directory %u was %x+%x, is %x+%x", name, i, a.im.dir[i][0], a.im.dir[i][1], b.im.dir[i][0], b.im.dir[i][1]); }
    static const int keep[] = {MACHINE, SUBSYS, EP, SA, STKRES, STKCOM, HEAPRES, HEAPCOM}; for(int i : keep) if(!(i == MACHINE && !strcmp(name, "full_pe_rebuilder"))) CHECK(a.im.h[i] == b.im.h[i], "field-changed", "%s: %s was %llx, is %llx", name, HFI[i].name, (unsigned long long)a.im.h[i], (unsigned long long)b.im.h[i]);
    if(ed.keepBase) CHECK(a.im.h[IMGBASE] == b.im.h[IMGBASE], "field-changed", "%s: image base", name);
    count("written-files-compared"); return b;
}
double entropyOf(const Bytes& d) { u64 n[256] = {0}; for(unsigned char c : d) ++n[c]; double e = 0; for(u64 v : n) if(v) { double p = static_cast<double>(v) / d.size(); e -= p * std::log(p) / std::log(256.0); } return e * 8; }
}

void setup() {
    realFiles(); std::string d = strf("files.%d", static_cast<int>(getpid())); if(mkdir(d.c_str(), 0700) || chdir(d.c_str())) { fprintf(stderr, "no scratch directory\n"); exit(3); }
    if(progs().empty()) { fprintf(stderr, "no sample programs\n"); exit(3); }
    for(const Prog& p : progs()) try { run(p.name, Bytes(100, 'x'), "0\n"); } catch(const CaseFail&) {}
}
static void hostile(Rng& r) {
    Bytes f; u64 k = r.below(10);
    if(k < 5) { Rich x = richImage(r); f = x.im.file(); if(r.chance(85)) f = mutateImage(r, f, x.regions); }
    else if(k < 8) { const auto& l = realFiles(); if(l.empty()) throw CaseSkip(); f = r.pick(l).second; if(f.size() > 300000) throw CaseSkip(); std::vector<Region> none; if(r.chance(85)) f = mutateImage(r, f, none); }
    else f = r.bytes(r.below(5000));
    note_input(f); Parsed q = parse(f, false); bool opens = true; try { openPe(f); } catch(const pe_exception&) { opens = false; }
    for(u64 n = 3 + r.below(8); n; --n) {
        const Prog& p = r.pick(progs()); Run x = run(p.name, f, r.chance(80) ? "1\n" : "9\n2\n", r.chance(20)); std::string w = p.name;
        if(!opens) CHECK(x.rc == -1 && (x.out.find("Error: ") != std::string::npos), "refusal-wrong", "%s returned %d on a file the library refuses and said %s", p.name, x.rc, x.out.substr(0, 200).c_str());
        if(x.wrote && x.rc == 0) { Parsed b = parse(x.file, false); count("hostile-files-written"); (void)b; }
    }
    nontrivial(fnv(f));
}
// images carrying what the remaining reading programs show
static void viewers(Rng& r) {
    GenOpt o; o.minSecs = 1; o.maxSecs = 4; o.maxSecData = 2500; o.fullDirs = true; Img im = genImg(r, o); for(u32 i = 0; i < 16; ++i) im.dir[i][0] = im.dir[i][1] = 0;
    { Bytes stub = r.chance(30) ? Bytes() : r.bytes(4 * r.below(20)); std::string e; im.stub = stub; // Rich records in the stub
      if(r.chance(60)) { u32 key = r.u32v(); put32(im.stub, 0x536e6144 ^ key); for(int i = 0; i < 3; ++i) put32(im.stub, key); for(u64 n = r.below(10); n; --n) { put32(im.stub, r.u32v() ^ key); put32(im.stub, r.edge32() ^ key); } put32(im.stub, 0x68636952); put32(im.stub, key); if(r.chance(50)) im.stub += Bytes(4 * r.below(6), '\0'); }
      Rng r2(7); layout(im, r2, false); }
    Arena a(im, r); const u64 parts = r.below(8); std::string eX = "Image has no exception directory\n", eN = "Image is not .NET\n", eD = "Image has no debug information\n"; std::wstring wD;
    if(parts & 1) { eX = "Reading exception directory...\n\n"; Bytes d; for(u64 n = 1 + r.below(6); n; --n) { u32 b = 1 + static_cast<u32>(r.below(0x80000000u)), z = b + static_cast<u32>(r.below(0x10000)), u = r.u32v(), at; { Bytes x; put32(x, u); at = a.place(x, 4); } put32(d, b); put32(d, z); put32(d, at);
        eX += "Addresses: [" + hx(b) + ":" + hx(z) + "]:\nFlags: " + hx(u >> 3 & 31) + "\nFrame pointer register number: " + hx(u >> 24 & 15) + "\nNumber of unwind slots: " + hx(u >> 16 & 255) + "\nScaled RSP offset: " + hx(u >> 28) + "\nSize of prolog: " + hx(u >> 8 & 255) + "\nUnwind info address: " + hx(at) + "\nUnwind info version: " + hx(u & 7) + "\n\n"; }
        im.dir[D_EXCEPTION][1] = static_cast<u32>(d.size()); im.dir[D_EXCEPTION][0] = a.place(d, 4); }
    if(parts & 2) { u32 w[16]; for(u32& x : w) x = r.chance(30) ? r.edge32() : r.u32v(); Bytes h; put32(h, 72); put16(h, static_cast<u16>(w[0])); put16(h, static_cast<u16>(w[0] >> 16)); for(int i = 1; i < 17; ++i) put32(h, w[i % 16]); im.dir[D_COM][1] = 72; im.dir[D_COM][0] = a.place(h, 4);
        eN = "Reading basic dotnet info...\n\nMajor runtime version: " + hx(w[0] & 0xFFFF) + "\nMinor runtime version: " + hx(w[0] >> 16) + "\nFlags: " + hx(w[3]) + "\nRVA of resources: " + hx(w[5]) + "\nRVA of metadata: " + hx(w[1]) + "\nSize of resources: " + hx(w[6]) + "\nSize of metadata: " + hx(w[2]) + "\nEntry point " + (w[3] & 16 ? "RVA: " : "token: ") + hx(w[4]) + "\n"; }
    if(parts & 4) { eD = "Reading PE debug information...\n\n"; Bytes d; static const char* const types[] = {"Unknown", "COFF", "CodeView", "FPO", "Misc", "Exception", "Fixup", "OMAP to src", "OMAP from src", "Borland", "Unknown", "CLSID", "Unknown"};
        for(u64 n = 1 + r.below(5); n; --n) { static const u32 common[] = {1, 2, 4}; u32 ts = r.u32v(), ty = r.chance(70) ? common[r.below(3)] : static_cast<u32>(r.below(13)); Bytes b; std::string nm; for(u64 q = 1 + r.below(12); q; --q) nm += static_cast<char>('a' + r.below(26)); std::string e;
            if(ty == 2) { u32 age = r.u32v(); switch(r.below(4)) {
                case 0: b = "RSDS" + r.bytes(16); put32(b, age); b += nm + '\0'; e = "Advanced info - PDB 7.0\nPDB file name: " + nm + "\nAge: " + hx(age) + "\n"; break;
                case 1: b = "NB10" + r.bytes(8); put32(b, age); b += nm + '\0'; e = "Advanced info - PDB 2.0\nPDB file name: " + nm + "\nAge: " + hx(age) + "\n"; break;
                case 2: b = "NB09" + r.bytes(20); e = "Advanced info - CodeView 4.0\n"; break; default: b = "NB11" + r.bytes(20); e = "Advanced info - CodeView 5.0\n"; } }
            else if(ty == 4) { bool uni = r.chance(40); u32 dt = r.chance(60) ? 1 : r.u32v(); put32(b, dt); Bytes s; if(uni) { for(char c : nm) { s += c; s += '\0'; } s += Bytes(2, '\0'); } else s = nm + '\0'; while((s.size() + 12) % 4) s += '\0'; put32(b, static_cast<u32>(12 + s.size())); b += static_cast<char>(uni ? 1 : 0); b += Bytes(3, '\0'); b += s;
                e = std::string("Advanced info - Misc\nAdvanced data is EXE name: ") + (dt == 1 ? "YES" : "NO") + "\n"; if(uni) { wD += std::wstring(nm.begin(), nm.end()) + L"\n"; count("wide-texts"); } else e += nm + "\n"; }
            else if(ty == 1) { Bytes sy, st; u32 f[6]; for(u32& x : f) x = r.u32v(); std::string l; u32 cnt = 0; put32(st, 0);
                for(u64 q = r.below(5); q; --q) { u32 v = r.u32v(); u16 type = 0; Bytes y; switch(r.below(4)) {
                    case 0: { Bytes fn = nm.substr(0, 10) + ".c"; y = Bytes(".file\0\0\0", 8); put32(y, v); put16(y, 0xFFFE); put16(y, 0); y += static_cast<char>(103); y += static_cast<char>(1); fn.resize(18, '\0'); l += "Index: " + hx(cnt) + "\nRVA: 0\nSection number: 0\nStorage class: 0x67\nType: 0\nIs file: YES\nSymbol: " + nm.substr(0, 10) + ".c\n\n"; sy += y + fn; cnt += 2; continue; }
                    case 1: type = static_cast<u16>(r.below(16)); y = nm.substr(0, 8); y.resize(8, '\0'); put32(y, v); put16(y, 1); put16(y, type); y += static_cast<char>(3); y += '\0'; l += "Index: " + hx(cnt) + "\nRVA: " + hx(v) + "\nSection number: 0x1\nStorage class: 0x3\nType: " + hx(type) + "\nIs file: NO\nSymbol: " + nm.substr(0, 8) + "\n\n"; break;
                    case 2: { u16 sn = static_cast<u16>(1 + r.below(9)); put32(y, 0); put32(y, static_cast<u32>(st.size())); st += "long_" + nm + '\0'; put32(y, v); put16(y, sn); put16(y, 0x20); y += static_cast<char>(2); y += '\0'; l += "Index: " + hx(cnt) + "\nRVA: " + hx(v) + "\nSection number: " + hx(sn) + "\nStorage class: 0x2\nType: 0x20\nIs file: NO\nSymbol: long_" + nm + "\n\n"; break; }
                    default: y = Bytes(8, 'q'); put32(y, v); put16(y, 2); put16(y, 0); y += static_cast<char>(r.chance(50) ? 3 : 2); y += '\0'; } // not shown
                    sy += y; ++cnt; }
                put32(b, cnt); put32(b, 32); for(u32 x : f) put32(b, x); b += sy + st;
                e = "Advanced info - COFF\nLVA to first line number: " + hx(f[1]) + "\nLVA to first symbol: 0x20\nNumber of line numbers: " + hx(f[0]) + "\nNumber of symbols: " + hx(cnt) + "\nRVA of first byte of code: " + hx(f[2]) + "\nRVA of first byte of data: " + hx(f[4]) + "\nRVA of last byte of code " + hx(f[3]) + "\nRVA of last byte of data: " + hx(f[5]) + "\n\nSymbol list:\n" + l; }
            else b = r.bytes(4 + r.below(40));
            u32 at = a.place(b, 4); const RSec* s = im.secAt(at); if(!s) throw CaseSkip(); put32(d, 0); put32(d, ts); put32(d, 0); put32(d, ty); put32(d, static_cast<u32>(b.size())); put32(d, at); put32(d, static_cast<u32>(down(s->rawptr, im.h[FA]) + (at - s->va)));
            eD += std::string("Debug info type: ") + types[ty] + "\nTimestamp: " + hx(ts) + "\n\n" + e + "\n==========\n\n"; count("debug-entries"); }
        im.dir[D_DEBUG][1] = static_cast<u32>(d.size()); im.dir[D_DEBUG][0] = a.place(d, 4); }
    Bytes f = im.file(); note_input(f); Parsed q = parse(f, true); if(!q.ok()) throw CaseSkip();
    std::unique_ptr<pe_base> op; try { op.reset(new pe_base(openPe(f))); } catch(const pe_exception&) { throw CaseSkip(); }
    same(run("exception_dir_reader", f), eX, "exception_dir_reader", im.describe()); same(run("basic_dotnet_viewer", f), eN, "basic_dotnet_viewer", im.describe());
    { Run x = run("debug_info_reader", f); same(x, eD, "debug_info_reader", im.describe()); CHECK(!x.there || x.wide == wD, "printed-wrong", "debug_info_reader: %zu wide characters instead of %zu", x.wide.size(), wD.size()); }
    { std::string e = strf("Image stub length: %zu\n\n", q.im.stub.size()); const Bytes& s = q.im.stub; size_t R = Bytes::npos; for(size_t i = 0; i + 4 <= s.size(); ++i) if(rd32(s, i) == 0x68636952) { R = i; break; }
      if(R != Bytes::npos && R + 8 <= s.size()) { u32 key = rd32(s, R + 4); for(size_t i = 0; i + 4 <= R; ++i) if((rd32(s, i) ^ key) == 0x536e6144) { for(size_t k = i + 16; k + 8 <= R; k += 8) { u32 v = rd32(s, k) ^ key; e += strf("Number: %u\nTimes: %u\nVersion: %u\n\n", v >> 16, rd32(s, k + 4) ^ key, v & 0xFFFF); count("rich-records"); } break; } }
      same(run("rich_overlay_stub_reader", f), e + "Has overlay in the end: " + (op->has_overlay() ? "YES\n" : "NO\n"), "rich_overlay_stub_reader", im.describe()); }
    { Run x = run("sections_and_addresses", f); const RSec* s = q.im.secAt(static_cast<u32>(q.im.h[EP])); CHECK(!x.there || x.refused() == !s, "refusal-wrong", "sections_and_addresses with the entry point at %llx: %s", (unsigned long long)q.im.h[EP], x.out.c_str()); if(s) same(x, "EP section name: " + s->cname() + strf("\nEP section data length: %zu\n", s->data.size()), "sections_and_addresses", im.describe()); }
    nontrivial(fnv(f)); sample(im.describe() + strf(" with parts %llu", (unsigned long long)parts));
}
void run_case(Rng& r, u64 idx) {
    if(idx % 3 == 0) { hostile(r); return; }
    if(idx % 6 == 1) { viewers(r); return; }
    // an image whose directories are known
    pe_base p(subject(r, true)); if(p.get_number_of_rvas_and_sizes() != 16) throw CaseSkip();
    for(const section& s : p.get_image_sections()) if(s.get_size_of_raw_data() > s.get_aligned_virtual_size(p.get_section_alignment())) throw CaseSkip();
    for(u32 i = 0; i < 16; ++i) p.remove_directory(i);
    std::vector<std::unique_ptr<Kind> > ks; std::string what; Bytes ico; MDir others;
    for(u64 n = 1 + r.below(3); n; --n) {
        std::unique_ptr<Kind> k = makeKind(static_cast<int>(r.below(KIND_COUNT))); bool dup = false; for(auto& o : ks) if(o->dir == k->dir) dup = true; if(dup) continue;
        // each one in a section of its own, so that they leave each other alone
        section s; s.set_name(".d"); s.readable(true).writeable(true); s.set_raw_data(Bytes(16, '\0')); p.add_section(s); Ctx c = ctxFor(p, 0, 0); c.aux.clear();
        k->gen(r, c, r.chance(80) ? 0 : 1); if(KTls* t = dynamic_cast<KTls*>(k.get())) { if(t->cbs || t->start) continue; } if(dynamic_cast<KConfig*>(k.get())) { KConfig* t = static_cast<KConfig*>(k.get()); if(t->hasLock || !t->seh.empty()) { if(r.chance(50)) continue; } }
        if(KImports* t = dynamic_cast<KImports*>(k.get())) { bool fixed = false; for(const MLib& l : t->l) if(l.iat || l.oft) fixed = true; if(fixed || t->empty()) continue; }
        if(KResources* t = dynamic_cast<KResources*>(k.get())) if(r.chance(60)) { // what resource_editor looks for
            bool clash = false; for(const MEnt& e : t->d.e) if(e.named ? e.name == u"CUSTOM" : e.id == 3 || e.id == 14 || e.id == 16) clash = true;
            if(!clash) { u32 n = 1 + static_cast<u32>(r.below(4)), at = 6 + 16 * n; put16(ico, 0); put16(ico, 1); put16(ico, static_cast<u16>(n)); Bytes pics; for(u32 i = 0; i < n; ++i) { Bytes b = r.bytes(1 + r.below(200)); ico += r.bytes(8); put32(ico, static_cast<u32>(b.size())); put32(ico, at); at += static_cast<u32>(b.size()); pics += b; } ico += pics;
                MEnt leaf, id, top; leaf.id = static_cast<u32>(r.below(2000)); leaf.data = ico; id.id = 100; id.leaf = false; id.sub.e.push_back(leaf); top.named = true; top.name = u"CUSTOM"; top.leaf = false; top.sub.e.push_back(id); others = t->d; t->d.e.push_back(top); sortDir(t->d); sortDir(others); count("custom-resources"); } }
        k->prep(p); try { k->rebuild(p, p.get_image_sections().back(), static_cast<u32>(r.below(2) * 8), true, r.chance(30)); } catch(const pe_exception&) { throw CaseSkip(); }
        k->rebuilt = true; what += " " + k->text(); ks.push_back(std::move(k));
    }
    Bytes f; try { f = writePe(p); } catch(const pe_exception&) { throw CaseSkip(); }
    note_input(f); Parsed a = parse(f, true); CHECK(a.ok(), "written-file-invalid", "%s", a.err.c_str()); Bytes mb = mapImage(f, a); Mem m(mb);
    std::unique_ptr<pe_base> op; try { op.reset(new pe_base(openPe(f))); } catch(const pe_exception& e) { fail("reopen-refused", "%s", e.what()); }
    for(auto& k : ks) { std::string e = k->lib(*op); if(!e.empty()) throw CaseSkip(); } // later ones may have overwritten what an earlier one refers to
    bool w64 = a.im.pe64; int w = w64 ? 8 : 4; u32 sa = static_cast<u32>(a.im.h[SA]); (void)w;
    auto kind = [&](int d) -> Kind* { for(auto& k : ks) if(k->dir == d) return k.get(); return 0; };
    bool room; { pe_base t(*op); section s; s.set_raw_data("x"); s.set_name("t"); bool bad = false; try { t.add_section(s); } catch(const pe_exception&) { bad = true; } room = !bad && !headersFull(t); }
    std::vector<int> todo; for(int i = 0; i < 18; ++i) todo.push_back(i); for(size_t i = todo.size() - 1; i; --i) std::swap(todo[i], todo[r.below(i + 1)]); todo.resize(7);
    for(int t : todo) switch(t) {
    case 0: { Run x = run("basic_info_viewer", f); u64 ck = refChecksum(f, a.lfanew); auto yn = [&](int d) { return a.im.dir[d][0] ? "YES\n" : "NO\n"; }; const u64* h = a.im.h;
        same(x, std::string("PE file type: ") + (w64 ? "PE64 (PE+)" : "PE32 (PE)") + "\nCalculated checksum: " + hx(ck) + "\nStored checksum: " + hx(h[CHK]) + "\nCharacteristics: " + hx(h[CHARS]) + "\nEntry point: " + hx(h[EP]) + "\nFile alignment: " + hx(h[FA]) + "\nSection alignment: " + hx(h[SA]) + "\nImage base: " + hx(h[IMGBASE]) + "\nSubsystem: " + hx(h[SUBSYS])
            + "\nIs console: " + (h[SUBSYS] == 3 ? "YES" : "NO") + "\nIs windows GUI: " + (h[SUBSYS] == 2 ? "YES" : "NO") + "\nHas bound import: " + yn(D_BOUND) + "Has config: " + yn(D_CONFIG) + "Has debug: " + yn(D_DEBUG) + "Has delay import: " + yn(D_DELAY) + "Has exception directory: " + yn(D_EXCEPTION) + "Has exports: " + yn(D_EXPORT) + "Has imports: " + yn(D_IMPORT)
            + "Has reloc: " + (a.im.dir[D_RELOC][0] && !(h[CHARS] & 1) ? "YES\n" : "NO\n") + "Has resources: " + yn(D_RESOURCE) + "Has security: " + yn(D_SECURITY) + "Has tls: " + yn(D_TLS) + "Is .NET: " + yn(D_COM), "basic_info_viewer", what); break; }
    case 1: { Run x = run("pe_sections_reader", f); std::string e = "Reading PE sections...\n\n"; for(const RSec& s : a.im.secs) e += "Section [" + s.cname() + "]\nCharacteristics: " + hx(s.chars) + "\nSize of raw data: " + hx(s.rawsize) + "\nVirtual address: " + hx(s.va) + "\nVirtual size: " + hx(s.vsize) + "\n\n"; same(x, e, "pe_sections_reader", what); break; }
    case 2: { bool ok = true; std::string e = "Reading PE sections...\n\n"; for(const RSec& s : a.im.secs) { if(!s.rawsize || s.rawptr % 512) ok = false; e += "Section [" + s.cname() + "]\n -> RVA: " + hx(s.va) + "\n -> VA: " + hx(a.im.h[IMGBASE] + s.va) + "\n -> File offset: " + hx(down(s.rawptr, 512)) + "\n\n"; } Run x = run("address_convertions", f); if(ok) same(x, e, "address_convertions", what); break; }
    case 3: { Run x = run("entropy_calculator", f); if(x.there) { std::ostringstream o; o << "File entropy: " << entropyOf(f) << "\n"; CHECK(x.out.substr(0, o.str().size()) == o.str(), "printed-wrong", "entropy_calculator: printed %s, expected %s", x.out.substr(0, 60).c_str(), o.str().c_str()); count("texts-compared"); } break; }
    case 4: { Run x = run("imports_reader", f); KImports* k = static_cast<KImports*>(kind(D_IMPORT)); if(!k) { same(x, "Image has no imports\n", "imports_reader", what); break; }
        std::string e = "Reading PE imports...\n\n"; u32 d = a.im.dir[D_IMPORT][0]; for(size_t i = 0; i < k->l.size(); ++i) { const MLib& l = k->l[i]; if(static_cast<u64>(d) + 20 * i + 20 > mb.size()) break; e += "Library [" + l.name + "]\nTimestamp: " + hx(l.ts) + "\nRVA to IAT: " + hx(rd32(mb, d + 20 * i + 16)) + "\n========\n"; for(const MFunc& g : l.f) e += "[+] " + (g.named ? g.name : "#" + hx(g.ord)) + " hint: " + hx(g.named ? g.hint : 0) + "\n"; e += "\n"; }
        same(x, e, "imports_reader", what); break; }
    case 5: { Run x = run("exports_reader", f); KExports* k = static_cast<KExports*>(kind(D_EXPORT)); if(!k) { same(x, "Image has no exports\n", "exports_reader", what); break; } if(k->empty()) break;
        std::string e = "Reading PE exports...\n\nExport info\nLibrary name: " + k->dll + "\nTimestamp: " + hx(k->ts) + "\nOrdinal base: "; CHECK(!x.there || x.out.compare(0, e.size(), e) == 0, "printed-wrong", "exports_reader on %s printed %s", what.c_str(), x.out.substr(0, 200).c_str());
        for(const MExp& g : k->f) { std::string l = "ORD: " + hx(g.ord) + (g.fwd ? "\n -> " + g.fname : "") + "\n"; if(g.named) l = ", name ordinal: " + hx(g.ord - op->get_image_sections().size() * 0 - rd32(mb, a.im.dir[D_EXPORT][0] + 16)) + " " + l; l = "[+] " + (g.named ? g.name : std::string()) + l; CHECK(!x.there || x.out.find(l) != std::string::npos, "printed-wrong", "exports_reader on %s did not print %s", what.c_str(), l.c_str()); count("lines-found"); } break; }
    case 6: { Run x = run("relocations_reader", f); KRelocs* k = static_cast<KRelocs*>(kind(D_RELOC)); if(!k) { same(x, "Image has no relocations\n", "relocations_reader", what); break; } if(k->empty()) break;
        std::string e = "Reading PE relocations...\n\n"; u64 o = a.im.dir[D_RELOC][0], end = o + a.im.dir[D_RELOC][1]; while(o + 8 <= end && end <= mb.size()) { u32 sz = rd32(mb, o + 4); e += "RVA [" + hx(rd32(mb, o)) + "]\n==========\n"; for(u64 z = o + 8; z + 2 <= o + sz; z += 2) if(rd16(mb, z) >> 12) e += "[+] " + hx(rd16(mb, z)) + "\n"; e += "\n"; if(sz < 8) break; o += sz; }
        same(x, e, "relocations_reader", what); break; }
    case 7: { Run x = run("tls_reader", f); KTls* k = static_cast<KTls*>(kind(D_TLS)); if(!k) { CHECK(!x.there || x.refused(), "refusal-wrong", "tls_reader found a TLS directory where there is none"); break; }
        std::string e = "Reading PE TLS info...\n\nCallbacks RVA: " + hx(k->cbs) + "\nIndex RVA: " + hx(k->index) + "\nRaw data start RVA: " + hx(k->start) + "\nRaw data end RVA: " + hx(k->end) + "\nSize of zero fill: " + hx(k->zero) + "\n"; if(k->cbs) for(u32 c : k->cb) e += "Callback: " + hx(c) + "\n"; same(x, e, "tls_reader", what); break; }
    case 8: { Run x = run("pe_config_reader", f); KConfig* k = static_cast<KConfig*>(kind(D_CONFIG)); if(!k) { CHECK(!x.there || x.refused(), "refusal-wrong", "pe_config_reader found a directory where there is none"); break; } image_config_info i = get_image_config(*op);
        std::string e = "Critical section default timeout: " + hx(k->cst) + "\nDecommit free block threshold: " + hx(k->dfb) + "\nDecommit total free threshold: " + hx(k->dtf) + "\nGlobal flags clear: " + hx(k->gfc) + "\nGlobal flags set: " + hx(k->gfs) + "\nVA of lock table prefix: " + hx(i.get_lock_prefix_table_va()) + "\nMax allocation size: " + hx(k->mas) + "\nProcess affinity mask: " + hx(k->pam) + "\nProcess heap flags: " + hx(k->phf) + "\nSecurity cookie VA: " + hx(k->cookie) + "\nCSDVersion: " + hx(k->csd) + "\nTimestamp: " + hx(k->ts) + "\nVirtual memory threshold: " + hx(k->vmt) + "\n\n"; for(u32 h : i.get_se_handler_rvas()) e += "SE Handler: " + hx(h) + "\n";
        if(x.there) { x.out = body(x); same(x, e, "pe_config_reader", what); } break; }
    case 9: { Run x = run("bound_import_reader", f); KBound* k = static_cast<KBound*>(kind(D_BOUND)); if(!k) { same(x, "Image has no bound import\n", "bound_import_reader", what); break; }
        std::string e = "Reading PE bound import...\n\n"; for(const MBound& b : k->l) { e += "Module: " + b.name + "\nTimestamp: " + hx(b.ts) + "\n"; for(auto& q : b.refs) e += " -> Module: " + q.first + "\n -> Timestamp: " + hx(q.second) + "\n"; } same(x, e, "bound_import_reader", what); break; }
    case 10: { // another file alignment
        u32 c = static_cast<u32>(r.below(4)), al = 512u << c; static const char* const wrong[] = {"7\n", "-1\n", "none\n", "4 \n 99999999999\n", "\n"}; bool end = r.chance(8); std::string in; while(r.chance(40)) in += wrong[r.below(5)]; if(!end) in += strf("%u%s", c, r.chance(80) ? "\n" : " "); Run x = run("pe_realigner", f, in.c_str()); if(!x.there) break;
        if(end) { CHECK(x.refused() && !x.wrote, "edit-wrong", "pe_realigner without a choice returned %d", x.rc); count("input-ended"); break; } bool fit = up(a.sectab + 40 * a.im.secs.size(), al) <= (a.im.secs.empty() ? ~0ull : a.im.secs[0].va);
        if(x.refused()) { CHECK(al > sa || !fit || a.im.dir[D_BOUND][0] || headersFull(*op), "edit-refused", "pe_realigner to %x of %s: %s", al, what.c_str(), x.out.c_str()); break; }
        Parsed b = edited(x, f, a, Ed(), "pe_realigner"); EQ(b.im.h[FA], al, "edit-wrong", "file alignment"); for(const RSec& s : b.im.secs) CHECK(!s.rawsize || s.rawptr % al == 0, "edit-wrong", "realigned section at file offset %x", s.rawptr); break; }
    case 11: { Run x = run("section_adder", f, "", r.chance(20)); if(!x.there) break; if(x.refused()) { CHECK(!room, "edit-refused", "section_adder on %s: %s", what.c_str(), x.out.c_str()); break; }
        Ed ed; ed.more = 1; ed.last = "kaimi.ru"; Parsed b = edited(x, f, a, ed, "section_adder"); const RSec& s = b.im.secs.back(); CHECK(s.vsize == 0x1000 && s.data.substr(0, 7) == "Tralala" && s.data.find_first_not_of('\0', 7) == Bytes::npos && (s.chars & 0xF0000000) == 0xC0000000, "edit-wrong", "section_adder: new section has size %x, characteristics %x, data %s", s.vsize, s.chars, hexs(s.data, 16).c_str()); break; }
    case 12: { Run x = run("import_adder", f); if(!x.there) break; if(x.refused()) { CHECK(!room, "edit-refused", "import_adder on %s: %s", what.c_str(), x.out.c_str()); break; }
        Ed ed; ed.more = 1; ed.last = "new_imp"; ed.dir = D_IMPORT; KImports* k = static_cast<KImports*>(kind(D_IMPORT)); Bytes ma = mb; imported_functions_list was; if(k) was = get_imported_functions(*op);
        for(const import_library& l : was) ed.free.push_back(std::make_pair(static_cast<u64>(l.get_rva_to_iat()), static_cast<u64>(l.get_rva_to_iat()) + w * (l.get_imported_functions().size() + 1)));
        edited(x, f, a, ed, "import_adder"); pe_base q = openPe(x.file); imported_functions_list now = get_imported_functions(q); CHECK(now.size() == was.size() + 1, "edit-wrong", "import_adder: %zu libraries, had %zu", now.size(), was.size());
        for(size_t i = 0; i < was.size(); ++i) { CHECK(now[i].get_name() == was[i].get_name() && now[i].get_imported_functions().size() == was[i].get_imported_functions().size(), "edit-wrong", "import_adder: library %zu is %s with %zu functions", i, now[i].get_name().c_str(), now[i].get_imported_functions().size()); for(size_t j = 0; j < was[i].get_imported_functions().size(); ++j) { const imported_function &u = was[i].get_imported_functions()[j], &v = now[i].get_imported_functions()[j]; CHECK(u.get_name() == v.get_name() && u.get_ordinal() == v.get_ordinal() && u.get_hint() == v.get_hint(), "edit-wrong", "import_adder changed function %zu of library %zu", j, i); } }
        const import_library& n = now.back(); CHECK(n.get_name() == "kaimi_dx.dll" && n.get_imported_functions().size() == 2 && n.get_imported_functions()[0].get_name() == "Tralala" && n.get_imported_functions()[1].get_ordinal() == 5, "edit-wrong", "import_adder: new library is %s with %zu functions", n.get_name().c_str(), n.get_imported_functions().size()); break; }
    case 13: { KExports* k = static_cast<KExports*>(kind(D_EXPORT)); u32 top = 0; if(k) for(const MExp& g : k->f) top = std::max(top, g.ord); Run x = run("export_adder", f); if(!x.there) break; bool dup = k && k->dup; if(k) for(const MExp& g : k->f) if(g.named && g.name == "SuperKernelCall") dup = true;
        if(x.refused()) { CHECK(!room || top >= 0xFFFF || dup || (k && k->empty()), "edit-refused", "export_adder on %s: %s", what.c_str(), x.out.c_str()); break; } if(top >= 0xFFFF || dup) break;
        Ed ed; ed.more = 1; ed.last = "new_exp"; ed.dir = D_EXPORT; edited(x, f, a, ed, "export_adder"); pe_base q = openPe(x.file); export_info ei; exported_functions_list now = get_exported_functions(q, ei); size_t had = k ? k->f.size() : 0; CHECK(now.size() == had + 1, "edit-wrong", "export_adder: %zu functions, had %zu", now.size(), had); u32 most = 0; size_t found = 0;
        for(const exported_function& g : now) { most = std::max<u32>(most, g.get_ordinal()); if(g.has_name() && g.get_name() == "SuperKernelCall") { ++found; CHECK(g.get_rva() == 0x123 && g.get_ordinal() == (had ? top + 1 : g.get_ordinal()), "edit-wrong", "export_adder: new function has ordinal %u, address %x; highest was %u", g.get_ordinal(), g.get_rva(), top); } }
        CHECK(found == 1, "edit-wrong", "export_adder: new function found %zu times", found); if(k) for(const MExp& g : k->f) { bool ok = false; for(const exported_function& z : now) if(z.get_ordinal() == g.ord && z.has_name() == g.named && z.get_name() == g.name && z.is_forwarded() == g.fwd && z.get_forwarded_name() == g.fname && (g.fwd || z.get_rva() == g.rva)) ok = true; CHECK(ok, "edit-wrong", "export_adder lost or changed function %u %s", g.ord, g.name.c_str()); } break; }
    case 14: { Run x = run("relocation_adder", f); if(!x.there) break; if(x.refused()) { CHECK(!room, "edit-refused", "relocation_adder on %s: %s", what.c_str(), x.out.c_str()); break; } relocation_table_list was; if(kind(D_RELOC)) was = get_relocations(*op);
        Ed ed; ed.more = 1; ed.last = "new_rel"; ed.dir = D_RELOC; Parsed b = edited(x, f, a, ed, "relocation_adder"); Bytes m2 = mapImage(x.file, b); std::vector<MRel> got; u64 o = b.im.dir[D_RELOC][0], end = o + b.im.dir[D_RELOC][1]; while(o + 8 <= end && end <= m2.size()) { MRel t; t.page = rd32(m2, o); u32 sz = rd32(m2, o + 4); if(sz < 8) break; for(u64 z = o + 8; z + 2 <= o + sz; z += 2) t.e.push_back(rd16(m2, z)); got.push_back(t); o += sz; }
        CHECK(got.size() == was.size() + 1 && got.back().page == 0x5678 && got.back().e.size() == 2 && got.back().e[0] == 0x300A && got.back().e[1] == 0, "edit-wrong", "relocation_adder: %zu tables, had %zu", got.size(), was.size());
        for(size_t i = 0; i < was.size(); ++i) { CHECK(got[i].page == was[i].get_rva() && got[i].e.size() >= was[i].get_relocations().size(), "edit-wrong", "relocation_adder changed table %zu", i); for(size_t j = 0; j < was[i].get_relocations().size(); ++j) CHECK(got[i].e[j] == was[i].get_relocations()[j].get_item(), "edit-wrong", "relocation_adder changed entry %zu of table %zu", j, i); } break; }
    case 15: { Run x = run("pe_stripper", f); if(!x.there) break; if(x.refused()) { CHECK(a.im.dir[D_BOUND][0] || headersFull(*op), "edit-refused", "pe_stripper on %s: %s", what.c_str(), x.out.c_str()); break; } Parsed b = parse(x.file, true); if(!b.ok() && a.im.dir[D_BOUND][0]) break;
        CHECK(b.ok(), "written-file-invalid", "file of pe_stripper: %s", b.err.c_str()); edited(x, f, a, Ed(), "pe_stripper"); CHECK(b.lfanew == 16, "edit-wrong", "pe_stripper left the PE header at %x", b.lfanew); u32 need = 0; for(u32 i = 0; i < 16; ++i) if(a.im.dir[i][0]) need = i + 1; CHECK(b.im.h[NRVA] >= need, "edit-wrong", "pe_stripper left %llu directories, the last used one is %u", (unsigned long long)b.im.h[NRVA], need); break; }
    case 16: { Run x = run("full_pe_rebuilder", f); if(!x.there) break; if(x.refused()) { count("full-rebuild-refused"); CHECK(a.im.h[FA] < 512 || a.im.dir[D_BOUND][0] || headersFull(*op) || !room || up(64 + 56 + 24 + 240 + 40 * a.im.secs.size(), a.im.h[FA]) > (a.im.secs.empty() ? ~0ull : a.im.secs[0].va) || a.im.secs.empty(), "edit-refused", "full_pe_rebuilder on %s: %s", what.c_str(), x.out.c_str()); break; } Ed ed; Parsed b = edited(x, f, a, ed, "full_pe_rebuilder"); CHECK(a.im.h[CHARS] == b.im.h[CHARS] && a.im.h[DLLCH] == b.im.h[DLLCH] && a.im.h[FA] == b.im.h[FA], "field-changed", "full_pe_rebuilder: characteristics or alignment"); CHECK(b.im.stub.substr(0, 11) == "alalalalala", "edit-wrong", "full_pe_rebuilder: stub is %s", hexs(b.im.stub, 16).c_str()); break; }
    case 17: { Run x = run("pe_rebaser", f); if(!x.there) break; KRelocs* k = static_cast<KRelocs*>(kind(D_RELOC)); if(!k) { same(x, "Image has no relocations, rebase is not possible\n", "pe_rebaser", what); break; } if(x.refused()) { count("rebase-refused"); break; }
        u64 nb = a.im.h[IMGBASE] + 0x100000; if(!w64) nb &= 0xFFFFFFFF; Ed ed; ed.keepBase = false; for(const MRel& t : k->t) for(u16 e : t.e) if(e >> 12) { u32 at = t.page + (e & 0xFFF); ed.free.push_back(std::make_pair(static_cast<u64>(at), static_cast<u64>(at) + 8)); } Parsed b = edited(x, f, a, ed, "pe_rebaser"); EQ(b.im.h[IMGBASE], nb, "edit-wrong", "pe_rebaser: image base");
        Bytes m2 = mb; u64 by = nb - a.im.h[IMGBASE]; bool exact = true; for(const MRel& t : k->t) for(u16 e : t.e) { u32 ty = e >> 12; if(!ty) continue; u32 n = ty == 10 ? 8 : ty == 3 ? 4 : 2; u64 at = static_cast<u64>(t.page) + (e & 0xFFF); bool in = false; for(const RSec& s : a.im.secs) if(at >= s.va && at + n <= s.va + static_cast<u64>(s.span(sa))) in = true; if(!in || at + n > m2.size() || (ty > 3 && ty != 10)) { exact = false; continue; }
            u64 v = 0; for(u32 i = n; i--; ) v = v << 8 | static_cast<unsigned char>(m2[static_cast<size_t>(at + i)]); v += ty == 1 ? by >> 16 : by; for(u32 i = 0; i < n; ++i) m2[static_cast<size_t>(at + i)] = static_cast<char>(v >> (8 * i)); }
        if(exact) { Bytes got = mapImage(x.file, b); for(const RSec& s : a.im.secs) { Bytes u = secMem(m2, s, sa), v = secMem(got, s, sa); CHECK(u == v, "edit-wrong", "pe_rebaser: section at %x: %s", s.va, diffAt(v, u).c_str()); } count("rebases-compared"); } break; }
    }
    { static const char* const rest[] = {"basic_dotnet_viewer", "debug_info_reader", "exception_dir_reader", "resource_viewer", "rich_overlay_stub_reader", "sections_and_addresses", "tls_editor", "image_config_editor", "resource_editor"}; const char* n = ico.size() && r.chance(60) ? "resource_editor" : rest[r.below(9)]; Run x = run(n, f);
      std::string w = n; if(x.there && x.wrote && !x.refused()) { Ed ed; ed.more = 1; if(w == "tls_editor") { ed.last = "new_tls"; ed.dir = D_TLS; } else if(w == "image_config_editor") { ed.last = "load_cfg"; ed.dir = D_CONFIG; } else { ed.last = ".rsrc"; ed.dir = D_RESOURCE; } edited(x, f, a, ed, n); }
      if(x.there && w == "resource_viewer" && !kind(D_RESOURCE)) same(x, "Image has no resources\n", n, what);
      if(x.there && w == "resource_viewer" && kind(D_RESOURCE)) { std::string e = "Reading PE resources...\n\n"; MDir d = static_cast<KResources*>(kind(D_RESOURCE))->d; sortDir(d); for(const MEnt& q : d.e) if(!q.named) e += "Present resource type: " + hx(q.id) + "\n"; bool plain = true; for(const MEnt& q : d.e) if(!q.named && (q.id == 6 || q.id == 14 || q.id == 16)) plain = false; if(plain) { e += "\n"; EQ(x.rc, 0, "exit-code", "resource_viewer on an image without icons, strings and version: %s", x.out.c_str()); } else x.out = x.out.substr(0, e.size()); same(x, e, n, what); }
      if(x.there && w == "resource_editor" && ico.size()) {
          if(x.refused()) CHECK(!room, "edit-refused", "resource_editor on %s: %s", what.c_str(), x.out.c_str());
          else { pe_base q = openPe(x.file); resource_directory root = get_resources(q); MDir now = fromLib(root), left; left = now; left.e.clear(); for(const MEnt& e : now.e) if(e.named || (e.id != 3 && e.id != 14 && e.id != 16)) left.e.push_back(e); CHECK(now.e.size() == left.e.size() + 3, "edit-wrong", "resource_editor: %zu kinds of resource, %zu of them old", now.e.size(), left.e.size()); std::string df = diffDir(left, others, false); CHECK(df.empty(), "edit-wrong", "resource_editor changed other resources: %s", df.c_str());
              pe_resource_viewer v(root); CHECK(resource_cursor_icon_reader(v).get_icon_by_name(L"MAIN_ICON") == ico, "edit-wrong", "resource_editor: icon of %zu bytes is %s", ico.size(), diffAt(resource_cursor_icon_reader(v).get_icon_by_name(L"MAIN_ICON"), ico).c_str());
              lang_string_values_map ls; translation_values_map tr; file_version_info fi = resource_version_info_reader(v).get_version_info(ls, tr); static const wchar_t* const want[][2] = {{L"CompanyName", L"Kaimi.ru DX"}, {L"FileDescription", L"Generated file version info"}, {L"InternalName", L"Tralala.exe"}, {L"LegalCopyright", L"(C) DX Portable Executable Library"}, {L"OriginalFilename", L"resource_editor.exe"}, {L"ProductName", L"PE Resource Editor Example"}, {L"ProductVersion", L"x.y.z"}, {L"MyLittleProperty", L"Secret Value"}};
              CHECK(fi.get_file_version_ms() == 0x10002 && fi.get_file_version_ls() == 0x30004 && fi.is_special_build() && fi.get_file_os() == file_version_info::file_os_nt_win32 && ls.size() == 1 && tr.size() == 1 && ls.begin()->second.size() == 8, "edit-wrong", "resource_editor: version %x.%x, %zu tables", fi.get_file_version_ms(), fi.get_file_version_ls(), ls.size());
              for(auto& z : want) { auto it = ls.begin()->second.find(z[0]); CHECK(it != ls.begin()->second.end() && it->second == z[1], "edit-wrong", "resource_editor: string %ls", z[0]); }
              Run y = run("resource_viewer", x.file); if(y.there) { std::string e = "Reading PE resources...\n\n"; bool strings = false; for(const MEnt& z : now.e) if(!z.named) { e += "Present resource type: " + hx(z.id) + "\n"; if(z.id == 6) strings = true; } e += "\nversion_info.txt created\n\nmain_icon.ico created\n"; if(!strings) { same(y, e, "resource_viewer", what + " after resource_editor"); CHECK(y.icon == ico && y.wide == L"Original filename: resource_editor.exe\n\n", "printed-wrong", "resource_viewer saved an icon of %zu bytes: %s", y.icon.size(), diffAt(y.icon, ico).c_str()); } }
              count("icons-set"); } }
      if(x.there && w == "image_config_editor" && kind(D_CONFIG) && x.refused()) count("config-edit-refused");
      if(x.there && w == "tls_editor" && kind(D_TLS)) { CHECK(!x.refused() || !room, "edit-refused", "tls_editor on %s: %s", what.c_str(), x.out.c_str()); if(!x.refused()) { pe_base q = openPe(x.file); tls_info i = get_tls_info(q); u32 va = q.get_image_sections().back().get_virtual_address(); CHECK(i.get_raw_data_start_rva() == va && i.get_raw_data_end_rva() == va + 13 && i.get_raw_data() == "Hello, world!" && i.get_index_rva() == static_cast<KTls*>(kind(D_TLS))->index, "edit-wrong", "tls_editor: data %x-%x, index %x", i.get_raw_data_start_rva(), i.get_raw_data_end_rva(), i.get_index_rva()); } }
    }
    nontrivial(fnv(f)); sample(what.substr(0, 300));
}
