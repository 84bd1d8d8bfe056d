// Copies are independent equal values
#include "../sweep.h"
#include <algorithm>
#include <new>
#include <type_traits>
extern const char* const PROPERTY = "C26";
extern const char* const RULE = "each case copies, assigns, self-assigns, chains and swaps images (with mapped views active), sections, resource trees and entries at any depth (also from a part of the target), debug records of every kind; observes both sides, edits, writes or destroys one side at random and observes the other again, under ASan with an allocation-balance monitor; non-trivial: both sides were compared after one of them changed; distinct by the observations";
u64 num_cases(bool t) { return t ? 800000 : 24000; }
void setup() { realFiles(); alloc::track_leaks(true); observeTyped(resource_directory()); }
static void same(const Obs& a, const Obs& b, const char* key, const std::string& what) { std::string d = diffObs(a, b); CHECK(d.empty(), key, "%s: %s", what.c_str(), d.c_str()); count("comparisons"); }
static std::unique_ptr<pe_base> image(Rng& r) {
    u64 k = r.below(10); std::unique_ptr<pe_base> p;
    if(k == 0) { u32 sa = 0x1000; if(r.chance(50)) p.reset(new pe_base(pe_properties_64(), sa, r.chance(50))); else p.reset(new pe_base(pe_properties_32(), sa)); }
    else if(k == 1) { for(;;) { const Bytes& b = realFiles()[r.below(realFiles().size())].second; if(b.size() > 60000) throw CaseSkip(); try { p.reset(new pe_base(openPe(b))); break; } catch(const pe_exception&) { throw CaseSkip(); } } }
    else { Rich x = richImage(r); Bytes f = x.im.file(); note_input(f); p.reset(new pe_base(openPe(f))); }
    if(r.chance(30)) for(const section& s : p->get_image_sections()) if(r.chance(50) && s.get_aligned_virtual_size(p->get_section_alignment()) < (1u << 18)) s.get_virtual_data(p->get_section_alignment());
    return p;
}
// changes p in some way the library allows; may turn it into anything
static std::string change(Rng& r, pe_base& p) {
    std::string t;
    for(u64 n = 1 + r.below(4); n; --n) switch(r.below(8)) {
    case 0: try { writePe(p, r.chance(30), r.chance(80), r.chance(80)); t += "write; "; } catch(const pe_exception&) { t += "write refused; "; } break;
    case 1: { try { if(!p.get_image_sections().empty()) { section& s = p.get_image_sections()[r.below(p.get_image_sections().size())]; if(!s.get_raw_data().empty()) { s.get_raw_data()[r.below(s.get_raw_data().size())] ^= 0x55; t += "byte; "; } else { s.set_name("changed"); t += "name; "; } } } catch(const pe_exception&) {} break; }
    case 2: p.set_ep(r.u32v()); p.set_checksum(r.u32v()); p.set_subsystem(static_cast<u16>(r.next())); t += "headers; "; break;
    case 3: if(p.get_image_sections().size()) { p.get_image_sections().pop_back(); t += "last section dropped; "; } break;
    default: t += randomEdit(r, p) + "; ";
    }
    return t;
}
static u64 images(Rng& r) {
    std::unique_ptr<pe_base> a = image(r), b; std::string how; Obs oa = observe(*a);
    switch(r.below(6)) {
    case 0: b.reset(new pe_base(*a)); how = "copy"; break;
    case 1: b = image(r); *b = *a; how = "assignment over another image"; break;
    case 2: { b.reset(new pe_base(*a)); how = "self-assignment after copy"; pe_base& s = *a; *a = s; break; }
    case 3: { std::vector<pe_base> v; v.push_back(*a); for(u64 n = 1 + r.below(4); n; --n) v.push_back(v[r.below(v.size())]); v.erase(v.begin()); b.reset(new pe_base(v.back())); how = "copies in a growing vector"; break; }
    case 4: { b = image(r); change(r, *b); Obs ob = observe(*b); std::swap(*a, *b); same(observe(*b), oa, "copy-differs", "swapped images, first"); same(observe(*a), ob, "copy-differs", "swapped images, second"); how = "swap"; oa = ob; a.swap(b); a.reset(new pe_base(*b)); oa = observe(*a); break; }
    default: { b = image(r); pe_base c(*b); *b = c; c = *a; *b = c; change(r, c); how = "assignment through a third image"; }
    }
    Obs ob = observe(*b); same(ob, oa, "copy-differs", how); same(observe(*a), oa, "source-changed", how);
    if(r.chance(30)) { // both write the same file
        bool st = r.chance(30), hd = r.chance(80), bd = r.chance(80); pe_base x(*a), y(*b); Bytes fx, fy; int rx = 0, ry = 0; try { fx = writePe(x, st, hd, bd); } catch(const pe_exception&) { rx = 1; } try { fy = writePe(y, st, hd, bd); } catch(const pe_exception&) { ry = 1; }
        CHECK(rx == ry && fx == fy, "copy-writes-differently", "%s: written files differ: %s", how.c_str(), diffAt(fy, fx).c_str()); same(observe(*a), oa, "source-changed", how + ", copies written"); }
    // chains of edits on either side
    for(u64 n = 1 + r.below(3); n; --n) {
        bool first = r.chance(50); pe_base& e = first ? *a : *b; pe_base& k = first ? *b : *a; Obs before = observe(k); std::string t = change(r, e); same(observe(k), before, "not-independent", how + (first ? ", source edited: " : ", copy edited: ") + t);
        count("one-side-edited");
    }
    Obs keep = observe(*b); a.reset(); same(observe(*b), keep, "not-independent", how + ", source destroyed"); count("source-destroyed");
    if(r.chance(50)) { change(r, *b); try { writePe(*b); } catch(const pe_exception&) {} }
    return hashObs(keep);
}
static std::string sec(const section& s) { const auto& h = s.get_raw_header(); return Bytes(reinterpret_cast<const char*>(&h), sizeof h) + s.get_raw_data() + "|" + s.get_name(); }
static u64 sections(Rng& r) {
    auto mk = [&] { section s; s.set_name(r.ident(0, 9)); Bytes d = r.bytes(r.below(300)); s.set_raw_data(d); s.set_virtual_size(static_cast<u32>(d.size() + r.below(3000))); s.set_virtual_address(0x1000); s.set_size_of_raw_data(static_cast<u32>(d.size())); s.set_characteristics(r.u32v()); return s; };
    section a = mk(), b = mk(); bool mapped = r.chance(60); if(mapped) static_cast<const section&>(a).get_virtual_data(0x1000); if(r.chance(40)) static_cast<const section&>(b).get_virtual_data(0x1000);
    std::string ia = sec(a), how;
    switch(r.below(4)) { case 0: b = a; how = "assignment"; break; case 1: b = section(a); how = "copy"; break; case 2: { section& s = a; a = s; b = a; how = "self-assignment"; break; } default: { section_list l; for(int i = 0; i < 3; ++i) { l.push_back(a); l.push_back(l[0]); } l.erase(l.begin()); b = l.back(); how = "list"; } }
    CHECK(sec(b) == ia && sec(a) == ia, "section-copy-differs", "%s of a section%s", how.c_str(), mapped ? " with a mapped view" : "");
    auto view = [&](const section& s) { return s.get_virtual_size() ? s.get_virtual_data(0x1000) : std::string(); };
    std::string va = view(a); CHECK(va == view(b), "section-copy-differs", "mapped view after %s", how.c_str());
    section* e = r.chance(50) ? &a : &b; section* k = e == &a ? &b : &a; std::string ik = sec(*k), vk = view(*k);
    for(u64 n = 1 + r.below(4); n; --n) switch(r.below(5)) { case 0: e->set_raw_data(r.bytes(r.below(200))); break; case 1: if(!e->get_raw_data().empty()) e->get_raw_data()[0] ^= 1; break; case 2: e->set_name("edited"); break; case 3: e->set_virtual_size(static_cast<u32>(1 + r.below(5000))); break; default: static_cast<const section*>(e)->get_virtual_data(0x1000); }
    CHECK(sec(*k) == ik && view(*k) == vk, "section-not-independent", "editing one section changed its %s", how.c_str()); count("one-side-edited"); return fnv(ia);
}
static resource_directory* anyDir(Rng& r, resource_directory& d) { resource_directory* p = &d; for(int k = 0; k < 3 && r.chance(60); ++k) { std::vector<resource_directory_entry*> c; for(auto& e : p->get_entry_list()) if(!e.includes_data()) c.push_back(&e); if(c.empty()) break; try { p = &c[r.below(c.size())]->get_resource_directory(); } catch(const pe_exception&) { break; } } return p; }
static u64 trees(Rng& r) {
    resource_directory a = typedTree(r); if(r.chance(40)) { MDir m = genResDir(r, 3, 3, 40); a = toLib(m); } if(r.chance(20)) mutateTree(r, a);
    std::string ta = observeTree(a), how; resource_directory b;
    switch(r.below(6)) {
    case 0: b = a; how = "tree assigned"; break;
    case 1: b = resource_directory(a); how = "tree copied"; break;
    case 2: b = typedTree(r); b = a; how = "tree assigned over another"; break;
    case 3: { resource_directory& s = a; a = s; b = a; how = "tree self-assigned"; break; }
    case 4: { b = a; for(auto& e : b.get_entry_list()) { resource_directory_entry& s = e; e = s; resource_directory_entry c(e); e = c; } how = "entries self-assigned"; break; }
    default: { std::vector<resource_directory> v(1, a); for(int i = 0; i < 3; ++i) v.push_back(v[0]); v.erase(v.begin()); b = v.back(); how = "trees in a vector"; }
    }
    CHECK(observeTree(b) == ta, "tree-copy-differs", "%s: %s", how.c_str(), diffAt(observeTree(b), ta).c_str()); CHECK(observeTree(a) == ta, "source-changed", "%s", how.c_str());
    for(u64 n = 1 + r.below(3); n; --n) {
        bool f = r.chance(50); resource_directory& e = f ? a : b; resource_directory& k = f ? b : a; std::string tk = observeTree(k), t;
        switch(r.below(7)) {
        case 0: mutateTree(r, e); t = "payloads and structure changed"; break;
        case 1: try { editTyped(r, e, 1 + r.below(3)); } catch(const pe_exception&) {} t = "typed edits"; break;
        case 2: e.clear_resource_directory_entry_list(); t = "cleared"; break;
        case 3: { resource_directory* d = anyDir(r, e); resource_directory* s = anyDir(r, k); if(d == &e || true) *d = *s; t = "part replaced by a part of the other"; break; }
        case 4: { resource_directory* d = anyDir(r, e); d->set_timestamp(r.u32v()); d->set_characteristics(r.u32v()); t = "attributes"; break; }
        case 5: { resource_directory* d = anyDir(r, e); if(d->get_entry_list().empty()) break; resource_directory_entry x(d->get_entry_list()[0]); std::string keepx; d->get_entry_list().push_back(x); d->get_entry_list().erase(d->get_entry_list().begin()); t = "entry moved"; break; }
        default: { resource_directory* d = anyDir(r, e); for(auto& x : d->get_entry_list()) if(r.chance(50)) { if(r.chance(50)) { Bytes y = r.bytes(9); x.add_data_entry(resource_data_entry(y, 3)); } else x.add_resource_directory(resource_directory()); } t = "entry kinds changed"; }
        }
        CHECK(observeTree(k) == tk, "tree-not-independent", "%s, then one of them: %s; the other: %s", how.c_str(), t.c_str(), diffAt(observeTree(k), tk).c_str()); count("one-side-edited");
    }
    { std::string tb = observeTree(b); { resource_directory gone; std::swap(gone, a); } CHECK(observeTree(b) == tb, "tree-not-independent", "%s, source destroyed", how.c_str()); count("source-destroyed"); }
    // a directory replaced by its own descendant's copy
    if(r.chance(40)) { resource_directory* s = anyDir(r, b); std::string ts = observeTree(*s); resource_directory c(*s); b = c; CHECK(observeTree(b) == ts, "tree-copy-differs", "tree replaced by a copy of its part"); }
    if(r.chance(30) && !b.get_entry_list().empty() && !b.get_entry_list()[0].includes_data()) { resource_directory_entry& e = b.get_entry_list()[0]; try { std::string ts = observeTree(e.get_resource_directory()); resource_directory x = e.get_resource_directory(); e.add_resource_directory(e.get_resource_directory()); CHECK(observeTree(e.get_resource_directory()) == ts, "tree-copy-differs", "entry given its own directory"); } catch(const pe_exception&) {} }
    return fnv(ta);
}
static u64 debugs(Rng& r) {
    GenOpt o; o.minSecs = 1; o.maxSecs = 2; o.maxSecData = 4000; o.fullDirs = true; Img im = genImg(r, o); Arena ar(im, r); std::vector<Region> reg; richDebug(r, im, ar, reg); Bytes f = im.file(); note_input(f);
    std::vector<std::string> t; std::unique_ptr<debug_info_list> l; { pe_base p = openPe(f); try { l.reset(new debug_info_list(get_debug_information(p))); } catch(const pe_exception&) { throw CaseSkip(); } } // the image is gone: records must not refer to it
    for(const debug_info& d : *l) t.push_back(observeDebugRec(d)); if(l->empty()) throw CaseSkip();
    debug_info_list copy(*l); for(size_t i = 0; i < t.size(); ++i) CHECK(observeDebugRec(copy[i]) == t[i], "debug-copy-differs", "record %zu copied: %s", i, diffAt(observeDebugRec(copy[i]), t[i]).c_str());
    for(u64 n = 1 + r.below(8); n; --n) { size_t i = r.below(t.size()), j = r.below(t.size()); const debug_info& src = r.chance(50) ? (*l)[j] : copy[j]; if(&src == &(*l)[j]) { copy[i] = src; std::string was = observeDebugRec(copy[i]); CHECK(was == t[j], "debug-copy-differs", "record %zu assigned over record %zu: %s", j, i, diffAt(was, t[j]).c_str()); } else { std::string w = observeDebugRec(src); copy[i] = src; CHECK(observeDebugRec(copy[i]) == w, "debug-copy-differs", "copied record %zu assigned over %zu", j, i); }
        if(r.chance(30)) std::swap(copy[i], copy[j]); if(r.chance(20)) copy.erase(copy.begin() + static_cast<long>(r.below(copy.size() > 1 ? copy.size() : 0) )); while(copy.size() < t.size()) copy.push_back((*l)[copy.size()]); count("one-side-edited"); }
    for(size_t i = 0; i < t.size(); ++i) CHECK(observeDebugRec((*l)[i]) == t[i], "debug-not-independent", "record %zu changed by assignments to copies", i);
    std::vector<std::string> tc; for(const debug_info& d : copy) tc.push_back(observeDebugRec(d)); l.reset(); for(size_t i = 0; i < tc.size(); ++i) CHECK(observeDebugRec(copy[i]) == tc[i], "debug-not-independent", "copy of record %zu changed when the originals were destroyed", i); count("source-destroyed");
    return fnv(f);
}
void run_case(Rng& r, u64) {
    u64 h; switch(r.below(10)) { case 0: case 1: case 2: case 3: case 4: h = images(r); break; case 5: h = sections(r); break; case 6: h = debugs(r); break; default: h = trees(r); }
    nontrivial(h);
}
