// Running out of memory at any allocation leaks and corrupts nothing
#include "../sweep.h"
#include "pe_lib/pe_checksum.h"
#include "pe_lib/entropy.h"
#include <algorithm>
extern const char* const PROPERTY = "C31";
extern const char* const RULE = "each case takes one operation (opening, sweeping all readers, copying, assigning, typed resource reading or editing, editing, rebuilding a directory, writing the file, checksum, entropy) on a generated image or tree, counts the allocations and text-conversion opens it makes, and repeats it with exactly the k-th one failing, for every k of small operations and a random sample of larger ones: it must end normally or by a std::exception, readers may only lose the observation that failed, everything must be destroyed with the allocation and conversion-handle balance restored, and the operation afterwards must give its normal result on the same object (readers, writing) and on a fresh one; non-trivial: at least one injected failure was hit; distinct by operation and input";
u64 num_cases(bool t) { return t ? 160000 : 2200; }
void setup() { realFiles(); observeDefaults(); observeTyped(resource_directory()); { std::string h = strf("%.17g", 1.5); std::istringstream s(h); double d; s >> d; } }
// outcome of one run: text of the result, or how it ended
static const size_t EVERY = 160;
struct Out { bool threw, hit; std::string text; };
template<class F> static Out attempt(F f) {
    char buf[400]; Out o; o.threw = o.hit = false;
    try { o.text = f(); }
    catch(const CaseFail&) { throw; }
    catch(const pe_exception& e) { o.threw = true; snprintf(buf, sizeof buf, "%s", e.what()); }
    catch(const std::bad_alloc&) { o.threw = true; strcpy(buf, "bad_alloc"); }
    catch(const std::exception& e) { o.threw = true; snprintf(buf, sizeof buf, "other: %s", e.what()); }
    bool hit = alloc::failed(); alloc::fail_at(0); alloc::iconv_fail_at(0); o.hit = hit; if(o.threw) o.text = buf;
    return o;
}
// make: fresh state (no failures); op: the operation; cmp: is a completed run with a failure acceptable; after: uses and destroys what is left
template<class M, class F, class C, class A> static u64 enumerate(Rng& r, const char* name, M make, F op, C cmp, A after) {
    u64 hits = 0;
    { auto warm = make(); attempt([&] { return op(*warm); }); }
    Out base; u64 n, nc;
    { auto x = make(); u64 a0 = alloc::allocs(), c0 = alloc::iconv_opens(); alloc::fail_at(u64(1) << 60); base = attempt([&] { return op(*x); }); n = alloc::stopped() - a0; nc = alloc::iconv_opens() - c0; }
    std::vector<std::pair<bool, u64> > at; size_t limit = g_thorough ? 2 * EVERY : EVERY;
    if(n <= limit) for(u64 k = 1; k <= n; ++k) at.push_back(std::make_pair(false, k)); else { u64 st = 1 + r.below(1 + n / limit * 2); for(u64 k = 0; k < 20; ++k) at.push_back(std::make_pair(false, 1 + k)); for(size_t k = 20; k < limit; ++k) { (void)st; at.push_back(std::make_pair(false, 1 + r.below(n))); } }
    if(nc <= 40) for(u64 k = 1; k <= nc; ++k) at.push_back(std::make_pair(true, k)); else for(int k = 0; k < 40; ++k) at.push_back(std::make_pair(true, 1 + r.below(nc)));
    for(auto& p : at) {
        std::string where = strf("%s with %s %llu of %llu failing", name, p.first ? "conversion" : "allocation", (unsigned long long)p.second, (unsigned long long)(p.first ? nc : n));
        for(int tries = 0;; ++tries) {
            i64 live = alloc::live(), handles = alloc::iconv_live(); bool hit = false;
            { auto x = make(); if(p.first) alloc::iconv_fail_at(p.second); else alloc::fail_at(p.second);
              Out o; try { o = attempt([&] { return op(*x); }); } catch(...) { alloc::fail_at(0); alloc::iconv_fail_at(0); throw; }
              hit = o.hit;
              if(hit) { ++hits; if(!tries) count(p.first ? "failed-conversions" : "failed-allocations"); if(!o.threw) { std::string e = cmp(o.text, base.text); CHECK(e.empty(), "wrong-result", "%s: %s", where.c_str(), e.c_str()); count("completed-anyway"); } }
              else { CHECK(o.threw == base.threw && o.text == base.text, "not-repeatable", "%s (failure not reached): '%s' instead of '%s'", where.c_str(), show(o.text).c_str(), show(base.text).c_str()); }
              std::string e = after(*x, op, base); CHECK(e.empty(), "not-recovered", "%s (ended: %s): afterwards %s", where.c_str(), o.threw ? o.text.c_str() : "normally", e.c_str());
            }
            if(alloc::live() == live && alloc::iconv_live() == handles) break;
            CHECK(tries < 2, "leak", "%s leaves %lld blocks and %lld conversion handles", where.c_str(), (long long)(alloc::live() - live), (long long)(alloc::iconv_live() - handles)); // caches fill once
        }
    }
    Out again; { auto x = make(); again = attempt([&] { return op(*x); }); }
    CHECK(again.threw == base.threw && again.text == base.text, "not-repeatable", "%s after all failures: '%s' instead of '%s'", name, show(again.text).c_str(), show(base.text).c_str());
    count("operations"); if(!base.threw) count("operations-working"); return hits ? fnv(base.text, fnv(name, strlen(name), n)) : 0;
}
static std::string exact(const std::string& got, const std::string& want) { return got == want ? "" : "completed with a different result: " + diffAt(got, want); }
// text form of observations: name NUL value NUL
static std::string flat(const Obs& o) { std::string t; for(const auto& x : o) { t += x.first; t += '\x01'; t += x.second; t += '\x02'; } return t; }
static std::vector<std::string> split(const std::string& t) { std::vector<std::string> v; size_t a = 0; for(;;) { size_t b = t.find('\x02', a); if(b == std::string::npos) break; v.push_back(t.substr(a, b - a)); a = b + 1; } return v; }
static std::string lossy(const std::string& got, const std::string& want) { // one observation may be refused instead
    std::vector<std::string> g = split(got), w = split(want); if(g.size() != w.size()) return ""; // nested listings cut short
    for(size_t i = 0; i < g.size(); ++i) if(g[i].substr(0, g[i].find('\x01')) != w[i].substr(0, w[i].find('\x01'))) return "";
    for(size_t i = 0; i < g.size(); ++i) if(g[i] != w[i] && g[i].find("\x01refused:") == std::string::npos) return "completed with a different value: " + diffAt(g[i], w[i]);
    return "";
}
// edits record which of them were refused; with the same ones the injected failure was absorbed and must not show
static std::string edited(const std::string& got, const std::string& want) { size_t a = got.find('|'), b = want.find('|'); return got.compare(0, a, want, 0, b) == 0 ? exact(got, want) : ""; }
static std::string obsText(const pe_base& p) { return strf("%llx", (unsigned long long)hashObs(observe(p))); }
void run_case(Rng& r, u64 idx) {
    auto none = [](auto&, auto&, const Out&) { return std::string(); };
    auto same = [](auto& x, auto& op, const Out& base) { Out o = attempt([&] { return op(x); }); return o.threw == base.threw && o.text == base.text ? std::string() : "the same operation on the same object gives '" + show(o.text) + "' instead of '" + show(base.text) + "': " + diffAt(o.text, base.text); };
    auto looked = [](pe_base& p, auto&, const Out&) { try { observe(p); } catch(const std::exception&) {} try { std::ostringstream s; rebuild_pe(p, s); } catch(const std::exception&) {} return std::string(); };
    Bytes f; bool real = r.chance(8);
    if(real) { f = realFiles()[r.below(realFiles().size())].second; if(f.size() > 40000) real = false; }
    if(!real) { Rich x = richImage(r); if(r.chance(30) && x.im.ndirs() > D_RESOURCE) try { resource_directory t = typedTree(r); MDir d = fromLib(t); sortDir(d); Arena a(x.im, r); plantResources(x.im, a, r, d); } catch(const CaseSkip&) {} f = x.im.file(); if(r.chance(15)) f = mutateImage(r, f, x.regions); }
    note_input(f);
    auto open = [&]() { try { std::istringstream s(f); return std::unique_ptr<pe_base>(new pe_base(pe_factory::create_pe(s))); } catch(const pe_exception&) { throw CaseSkip(); } };
    u64 h = 0, opseed = r.next();
    switch(idx % 14) {
    case 0: { bool mem = r.chance(20); auto make = [&] { return std::unique_ptr<std::istringstream>(new std::istringstream(f)); };
        h = enumerate(r, "opening", make, [&](std::istringstream& s) { pe_base p = r.chance(0) ? pe_base(pe_properties_32(), 0x1000) : pe_factory::create_pe(s, true); (void)mem; std::string t(reinterpret_cast<const char*>(&p.get_dos_header()), 64); t.append(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); for(const section& x : p.get_image_sections()) t += x.get_raw_data(); return t + p.get_full_headers_data(); }, exact,
            [](std::istringstream& s, auto& op, const Out& base) { s.clear(); s.seekg(0); Out o = attempt([&] { return op(s); }); return o.threw == base.threw && o.text == base.text ? std::string() : "opening the same stream again gives " + show(o.text); }); break; }
    case 1: case 2: { auto p = open(); auto make = [&] { return &*p; }; h = enumerate(r, "reading everything", make, [](pe_base& x) { return flat(observe(x)); }, lossy, same); break; }
    case 3: { auto p = open(); for(const section& s : p->get_image_sections()) if(r.chance(50) && s.get_aligned_virtual_size(p->get_section_alignment()) < (1u << 16)) s.get_virtual_data(p->get_section_alignment()); auto make = [&] { return &*p; };
        h = enumerate(r, "copying an image", make, [](pe_base& x) { pe_base q(x); std::string t(q.get_nt_headers_ptr(), q.get_sizeof_nt_header()); for(const section& s : q.get_image_sections()) t += s.get_raw_data(); return t + q.get_full_headers_data() + q.get_stub_overlay(); }, exact, same); break; }
    case 4: { auto p = open(); std::unique_ptr<pe_base> q; { Rich y = richImage(r); q.reset(new pe_base(openPe(y.im.file()))); } auto make = [&] { return std::unique_ptr<pe_base>(new pe_base(*q)); };
        h = enumerate(r, "assigning an image", make, [&](pe_base& x) { x = *p; return obsText(x); }, [](const std::string&, const std::string&) { return std::string(); }, [&](pe_base& x, auto& op, const Out& base) { try { observe(x); } catch(const std::exception&) {} Out o = attempt([&] { return op(x); }); return o.text == base.text ? std::string() : std::string("assigning again gives something else"); }); break; }
    case 5: { resource_directory t = typedTree(r); if(r.chance(30)) mutateTree(r, t); auto make = [&] { return &t; }; h = enumerate(r, "typed resource reading", make, [](resource_directory& x) { return flat(observeTyped(x)); }, lossy, same); break; }
    case 6: { resource_directory t = typedTree(r); auto make = [&] { return std::unique_ptr<resource_directory>(new resource_directory(t)); }; u64 n = 1 + r.below(2);
        h = enumerate(r, "typed resource editing", make, [&](resource_directory& x) { Rng q(opseed); g_refusals = 0; editTyped(q, x, n); u64 g = g_refusals; return strf("%llu|", (unsigned long long)g) + observeTree(x); }, edited, [](resource_directory& x, auto&, const Out&) { observeTree(x); try { observeTyped(x); } catch(const std::exception&) {} resource_directory c(x); return std::string(); }); break; }
    case 7: { resource_directory t = typedTree(r); resource_directory u = typedTree(r); auto make = [&] { return std::unique_ptr<resource_directory>(new resource_directory(u)); };
        h = enumerate(r, "copying and assigning resource trees", make, [&](resource_directory& x) { resource_directory c(t); if(opseed & 1) x = c; else x = t; return observeTree(x); }, exact, [](resource_directory& x, auto& op, const Out& base) { observeTree(x); Out o = attempt([&] { return op(x); }); return o.text == base.text ? std::string() : std::string("assigning again gives something else"); }); break; }
    case 8: { auto p = open(); auto make = [&] { return std::unique_ptr<pe_base>(new pe_base(*p)); };
        h = enumerate(r, "editing an image", make, [&](pe_base& x) { Rng q(opseed); std::string t = randomEdit(q, x); bool no = t.find("refused") != std::string::npos; alloc::fail_at(0); alloc::iconv_fail_at(0); return std::string(no ? "r|" : "d|") + t + obsText(x); }, edited, looked); break; }
    case 9: case 10: { auto p = subject(r, r.chance(50)); if(p.get_number_of_rvas_and_sizes() < 16) throw CaseSkip(); std::shared_ptr<Kind> k(makeKind(static_cast<int>(r.below(KIND_COUNT))).release()); Spot s = prepareRebuild(r, p, *k, r.chance(80) ? 0 : 1, false); k->prep(p); bool strip = r.chance(50); bool twice = true; { pe_base q(p); for(int i = 0; i < 2; ++i) try { k->rebuild(q, q.get_image_sections()[s.sec], s.off, true, strip); } catch(const pe_exception&) { if(i) twice = false; else break; } } // the section's stripped data may not take it again
        auto make = [&] { return std::unique_ptr<pe_base>(new pe_base(p)); };
        h = enumerate(r, strf("rebuilding %s", k->name).c_str(), make, [&](pe_base& x) { image_directory d = k->rebuild(x, x.get_image_sections()[s.sec], s.off, true, strip); std::string t = strf("%x %x ", d.get_rva(), d.get_size()); t.append(x.get_nt_headers_ptr(), x.get_sizeof_nt_header()); for(const section& y : x.get_image_sections()) t += y.get_raw_data(); return t; }, exact,
            [&](pe_base& x, auto& op, const Out& base) { try { observe(x); } catch(const std::exception&) {} for(const section& y : x.get_image_sections()) y.get_raw_data(); Out o = attempt([&] { return op(x); }); return !twice || o.threw == base.threw ? std::string() : "rebuilding again " + (o.threw ? "throws " + o.text : std::string("works")); }); break; }
    case 11: case 12: { auto p = open(); for(const section& s : p->get_image_sections()) if(r.chance(30) && s.get_aligned_virtual_size(p->get_section_alignment()) < (1u << 16)) s.get_virtual_data(p->get_section_alignment()); auto make = [&] { return std::unique_ptr<pe_base>(new pe_base(*p)); }; bool st = r.chance(40), hd = r.chance(80), bd = r.chance(80);
        h = enumerate(r, "writing an image", make, [&](pe_base& x) { std::ostringstream s; rebuild_pe(x, s, st, hd, bd); if(s.bad()) throw std::bad_alloc(); return s.str(); }, exact, same); break; }
    default: { auto p = open(); auto make = [&] { return &*p; };
        h = enumerate(r, "checksum, entropy and debug records", make, [&](pe_base& x) { std::string t; { std::istringstream s(f); t = strf("%x ", calculate_checksum(s)); } { std::istringstream s(f); t += strf("%.17g ", entropy_calculator::calculate_entropy(s)); } t += strf("%.17g ", entropy_calculator::calculate_entropy(f.data(), f.size())); debug_info_list l = get_debug_information(x); debug_info_list m(l); for(size_t i = 0; i + 1 < m.size(); ++i) m[i] = l[i + 1]; std::swap(l, m); for(const debug_info& d : l) t += observeDebugRec(d); return t + strf("%.17g", entropy_calculator::calculate_entropy(x)); }, exact, same); }
    }
    if(h) nontrivial(h ^ fnv(f));
}
