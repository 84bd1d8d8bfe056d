// Resource editing and lookup against a map model
#include "../gens.h"
#include <algorithm>
#include <set>
extern const char* const PROPERTY = "C18";
extern const char* const RULE = "each case takes an empty, random or file-read resource tree, applies a random history of adds (also with data taken from the tree itself), replacements and removals of resources, names, types and languages over colliding and distinct keys, after each step compares every entry, counter and attribute of the tree and a random set of lookups, listings, counts and existence queries (by language and by index, present and absent keys) with a map model, and finally writes the tree, decodes it independently, and reads it back; non-trivial: at least one edit that changed the tree; distinct by edit history";
u64 num_cases(bool t) { return t ? 600000 : 20000; }
void setup() {}
typedef pe_resource_viewer V;
struct Key { bool named; std::u16string name; u32 id; };
static bool same(const MEnt& e, const Key& k) { return e.named == k.named && (k.named ? e.name == k.name : e.id == k.id); }
static std::u16string uname(const std::wstring& s) { std::u16string o; for(wchar_t c : s) o += static_cast<char16_t>(c); return o; }
static MEnt* find(MDir& d, const Key& k) { for(MEnt& e : d.e) if(same(e, k)) return &e; return 0; }
static std::string str(const Key& k) { if(!k.named) return strf("%u", k.id); std::string s = "'"; for(char16_t c : k.name) s += c < 127 ? static_cast<char>(c) : '?'; return s + "'"; }
static V::resource_type ty(const Key& k) { return static_cast<V::resource_type>(k.id); }
struct Absent {};
static MDir& dirOf(MDir& root, const Key& t) { MEnt* e = find(root, t); if(!e || e->leaf) throw Absent(); return e->sub; }
static MDir& langs(MDir& root, const Key& t, const Key& n) { MEnt* e = find(dirOf(root, t), n); if(!e || e->leaf) throw Absent(); return e->sub; }
// Runs a query on the model and the library; both must give the same value, or both report absence
template<class T, class F, class G> static void query(const char* key, const std::string& what, F model, G lib) {
    T want = T(); bool absent = false; try { want = model(); } catch(const Absent&) { absent = true; }
    if(absent) { mustRefuse("absent-answered", what + " (absent)", [&] { lib(); }); count("absent-queries"); return; }
    T got = T(); mustWork("present-refused", what, [&] { got = lib(); });
    if(!(got == want)) fail(key, "%s: wrong answer", what.c_str());
    count("present-queries");
}
typedef std::vector<u32> Ids; typedef std::vector<std::wstring> Names; typedef std::pair<Bytes, u32> Res;
static Ids ids(const MDir& d) { Ids o; for(const MEnt& e : d.e) if(!e.named) o.push_back(e.id); std::sort(o.begin(), o.end()); return o; }
static Names names(const MDir& d) { Names o; for(const MEnt& e : d.e) if(e.named) o.push_back(wide(e.name)); std::sort(o.begin(), o.end()); return o; }
template<class T> static T sorted(T v) { std::sort(v.begin(), v.end()); return v; }
static Res res(const resource_data_info& i) { return Res(i.get_data(), i.get_codepage()); }
#define ALT(k, a, b) ((k).named ? (a) : (b))
static void queries(Rng& r, const V& v, MDir& m, const Key& t, const Key& n, u32 lang) {
    std::wstring tn = wide(t.name), nn = wide(n.name); std::string w = str(t) + "/" + str(n), wl = w + strf("/%u", lang);
    query<bool>("existence-wrong", "existence of type " + str(t), [&] { return find(m, t) != 0; }, [&] { return ALT(t, v.resource_exists(tn), v.resource_exists(ty(t))); });
    query<Ids>("types-wrong", "list of types", [&] { return ids(m); }, [&] { return sorted(v.list_resource_types()); });
    query<Names>("names-wrong", "names of " + str(t), [&] { return names(dirOf(m, t)); }, [&] { return sorted(ALT(t, v.list_resource_names(tn), v.list_resource_names(ty(t)))); });
    query<Ids>("ids-wrong", "numbers of " + str(t), [&] { return ids(dirOf(m, t)); }, [&] { return sorted(ALT(t, v.list_resource_ids(tn), v.list_resource_ids(ty(t)))); });
    query<u32>("count-wrong", "count of " + str(t), [&] { return static_cast<u32>(dirOf(m, t).e.size()); }, [&] { return ALT(t, v.get_resource_count(tn), v.get_resource_count(ty(t))); });
    query<u32>("language-count-wrong", "language count of " + w, [&] { return static_cast<u32>(ids(langs(m, t, n)).size()); }, [&] { return n.named ? ALT(t, v.get_language_count(tn, nn), v.get_language_count(ty(t), nn)) : ALT(t, v.get_language_count(tn, n.id), v.get_language_count(ty(t), n.id)); });
    Ids order;
    query<Ids>("languages-wrong", "languages of " + w, [&] { return ids(langs(m, t, n)); }, [&] { order = n.named ? ALT(t, v.list_resource_languages(tn, nn), v.list_resource_languages(ty(t), nn)) : ALT(t, v.list_resource_languages(tn, n.id), v.list_resource_languages(ty(t), n.id)); return sorted(order); });
    auto at = [&](u32 l) { Key k{false, std::u16string(), l}; MEnt* e = find(langs(m, t, n), k); if(!e || !e->leaf) throw Absent(); return Res(e->data, e->cp); };
    query<Res>("data-wrong", "data of " + wl, [&] { return at(lang); }, [&] { return res(n.named ? ALT(t, v.get_resource_data_by_name(lang, tn, nn), v.get_resource_data_by_name(lang, ty(t), nn)) : ALT(t, v.get_resource_data_by_id(lang, tn, n.id), v.get_resource_data_by_id(lang, ty(t), n.id))); });
    // by position in the language list; irregular trees may also hold named languages, which have no place in that list
    MDir* ld = 0; try { ld = &langs(m, t, n); } catch(const Absent&) {}
    if(ld) for(const MEnt& e : ld->e) if(e.named) return;
    u32 i = r.chance(80) && order.size() ? static_cast<u32>(r.below(order.size())) : r.chance(50) ? static_cast<u32>(order.size()) : r.edge32();
    query<Res>("indexed-data-wrong", w + strf(" at position %u", i), [&] { if(i >= order.size()) throw Absent(); return at(order[i]); },
        [&] { return res(n.named ? ALT(t, v.get_resource_data_by_name(tn, nn, i), v.get_resource_data_by_name(ty(t), nn, i)) : ALT(t, v.get_resource_data_by_id(tn, n.id, i), v.get_resource_data_by_id(ty(t), n.id, i))); });
    if(i == 0 && r.chance(50)) query<Res>("indexed-data-wrong", w + " at default position", [&] { if(order.empty()) throw Absent(); return at(order[0]); },
        [&] { return res(n.named ? ALT(t, v.get_resource_data_by_name(tn, nn), v.get_resource_data_by_name(ty(t), nn)) : ALT(t, v.get_resource_data_by_id(tn, n.id), v.get_resource_data_by_id(ty(t), n.id))); });
}
static MDir genTree(Rng& r) {
    MDir d = genResDir(r, 3, 1 + static_cast<int>(r.below(5)), 20);
    // mostly regular: no data above the language level, no deeper directories
    std::function<void(MDir&, int)> fix = [&](MDir& x, int lvl) { for(size_t i = 0; i < x.e.size();) { MEnt& e = x.e[i]; if(e.leaf && lvl < 3 && !r.chance(10)) { x.e.erase(x.e.begin() + i); continue; } if(lvl == 3 && e.named) { e.named = false; e.name.clear(); e.id = 0x7ABC1230 + static_cast<u32>(i); } if(!e.leaf) fix(e.sub, lvl + 1); ++i; } };
    fix(d, 1);
    return d;
}
void run_case(Rng& r, u64 idx) {
    MDir m; if(r.chance(70)) m = genTree(r); else if(r.chance(50)) genDirAttrs(r, m);
    resource_directory root = toLib(m); bool fromFile = false;
    if(r.chance(15) && m.e.size()) { // the tree comes from a file
        GenOpt o; o.minSecs = 1; o.maxSecs = 2; o.maxSecData = 6000; o.fullDirs = true; Img im = genImg(r, o); if(im.ndirs() < 3) throw CaseSkip(); saneBase(im, r); Arena a(im, r); KResources k; k.d = m; k.plant(im, a, r); Bytes f = im.file(); note_input(f);
        pe_base p = openPe(f); root = get_resources(p); m = k.d; fromFile = true;
    }
    (void)fromFile;
    std::vector<Key> tk, nk; std::vector<u32> lk;
    auto key = [&](bool type) { Key k; k.named = r.chance(45); k.id = 0; if(k.named) k.name = genName(r, r.chance(4) ? 0 : 1, r.chance(50) ? 1 : 8, r.chance(20)); else k.id = type ? static_cast<u32>(r.below(25)) : r.chance(60) ? static_cast<u32>(r.below(5)) : r.edge32() & 0x7FFFFFFF; return k; };
    for(const MEnt& e : m.e) { if(!e.named && e.id > 31) continue; tk.push_back(Key{e.named, e.name, e.id}); if(!e.leaf) for(const MEnt& f : e.sub.e) { nk.push_back(Key{f.named, f.name, f.id}); if(!f.leaf) for(const MEnt& g : f.sub.e) if(!g.named) lk.push_back(g.id); } }
    for(int i = 0; i < 3; ++i) { tk.push_back(key(true)); nk.push_back(key(false)); lk.push_back(r.chance(40) ? 0 : r.chance(50) ? 1033 : r.edge32() & 0x7FFFFFFF); }
    if(r.chance(40)) { Key k = r.pick(nk); nk.push_back(k); if(k.named && k.name.size()) { k.name[0] ^= 0x20; if(k.name[0] < 0xD800 || k.name[0] > 0xDFFF) nk.push_back(k); k.name += u' '; nk.push_back(k); k.name.resize(k.name.size() / 2); nk.push_back(k); } tk.push_back(k.named ? k : Key{false, k.name, k.id % 32}); }
    // names that look like numbers are still names
    { Key k; k.named = true; k.id = 0; k.name = u"#1"; if(r.chance(20)) nk.push_back(k); k.name = u"1"; if(r.chance(20)) { nk.push_back(k); tk.push_back(k); } }
    pe_resource_manager mg(root); u64 tr = fnv(strf("%zu", m.e.size())); bool changed = false; int steps = static_cast<int>(1 + r.below(16));
    CHECK(&mg.get_root_directory() == &root, "root-wrong", "the manager edits another directory");
    for(int st = 0; st < steps; ++st) {
        if(r.chance(10)) { // direct edits of a stored record
            std::vector<std::pair<resource_data_entry*, MEnt*> > all; std::vector<std::pair<resource_directory*, MDir*> > dirs; std::function<void(resource_directory&, MDir&)> w = [&](resource_directory& d, MDir& x) { dirs.push_back(std::make_pair(&d, &x)); for(auto& e : d.get_entry_list()) { MEnt* q = find(x, Key{e.is_named(), e.is_named() ? uname(e.get_name()) : std::u16string(), e.is_named() ? 0 : e.get_id()}); if(!q) fail("tree-wrong", "an entry of the tree is not in the model"); if(e.includes_data()) all.push_back(std::make_pair(&e.get_data_entry(), q)); else w(e.get_resource_directory(), q->sub); } }; w(root, m);
            if(all.size()) { auto q = r.pick(all); if(r.chance(60)) { Bytes d = r.bytes(r.below(40)); q.first->set_data(d); q.second->data = d; } else { u32 c = r.edge32(); q.first->set_codepage(c); q.second->cp = c; } changed = true; count("direct-data-edits"); }
            auto q = r.pick(dirs); switch(r.below(4)) { case 0: { u32 v = r.u32v(); q.first->set_characteristics(v); q.second->chars = v; break; } case 1: { u32 v = r.u32v(); q.first->set_timestamp(v); q.second->ts = v; break; } case 2: { u16 v = static_cast<u16>(r.u32v()); q.first->set_major_version(v); q.second->maj = v; break; } default: { u16 v = static_cast<u16>(r.u32v()); q.first->get_minor_version(v); q.second->min = v; } }
        }
        Key t = r.pick(tk), n = r.pick(nk); u32 l = r.pick(lk); std::wstring tn = wide(t.name), nn = wide(n.name); std::string what; int op = static_cast<int>(r.below(10));
        if(r.chance(50)) { MEnt* e = find(m, t); if(e && !e->leaf && e->sub.e.size()) { const MEnt& f = r.pick(e->sub.e); n = Key{f.named, f.name, f.id}; nn = wide(n.name); if(!f.leaf && f.sub.e.size() && r.chance(60)) { const MEnt& g = r.pick(f.sub.e); if(!g.named) l = g.id; } } }
        tr = fnv(str(t) + str(n) + strf("%u %d", l, op), tr);
        if(op < 5) {
            Bytes data = r.bytes(r.below(r.chance(10) ? 3000 : 30)); u32 cp = r.chance(40) ? 0 : r.edge32(), ts = r.chance(40) ? 0 : r.edge32(); const Bytes* src = &data; bool defs = r.chance(15); if(defs) cp = ts = 0;
            if(r.chance(15)) { // data that is itself a part of the tree
                std::vector<const Bytes*> all; std::function<void(const resource_directory&)> w = [&](const resource_directory& d) { for(const auto& e : d.get_entry_list()) if(e.includes_data()) all.push_back(&e.get_data_entry().get_data()); else w(e.get_resource_directory()); }; w(root);
                if(all.size()) { src = r.pick(all); data = *src; count("aliased-data"); }
            }
            what = "adding " + str(t) + "/" + str(n) + strf("/%u", l); bool refuse = false; MDir before = m;
            { MEnt* e = find(m, t); if(e && e->leaf) refuse = true; else { if(!e) { MEnt x; x.leaf = false; x.named = t.named; x.name = t.name; x.id = t.named ? 0 : t.id; x.sub.ts = ts; m.e.push_back(x); e = &m.e.back(); }
                MEnt* f = find(e->sub, n); if(f && f->leaf) refuse = true; else { if(!f) { MEnt x; x.leaf = false; x.named = n.named; x.name = n.name; x.id = n.named ? 0 : n.id; x.sub.ts = ts; e->sub.e.push_back(x); f = &e->sub.e.back(); }
                    Key k{false, std::u16string(), l}; for(size_t i = 0; i < f->sub.e.size(); ++i) if(same(f->sub.e[i], k)) { f->sub.e.erase(f->sub.e.begin() + i); break; } MEnt x; x.id = l; x.data = data; x.cp = cp; f->sub.e.push_back(x); } } }
            auto go = [&] {
                if(t.named) { if(n.named) { if(defs) mg.add_resource(*src, tn, nn, l); else mg.add_resource(*src, tn, nn, l, cp, ts); } else { if(defs) mg.add_resource(*src, tn, n.id, l); else mg.add_resource(*src, tn, n.id, l, cp, ts); } }
                else { if(n.named) { if(defs) mg.add_resource(*src, ty(t), nn, l); else mg.add_resource(*src, ty(t), nn, l, cp, ts); } else { if(defs) mg.add_resource(*src, ty(t), n.id, l); else mg.add_resource(*src, ty(t), n.id, l, cp, ts); } } };
            if(refuse) { m = before; mustRefuse("irregular-accepted", what + " over data", go); count("refused"); } else { mustWork("add-refused", what, go); changed = true; count("added"); }
        } else {
            bool want = false, refuse = false, got = false; int lvl = op == 5 ? 1 : op <= 7 ? 2 : 3; MDir before = m;
            what = "removing " + str(t) + (lvl > 1 ? "/" + str(n) : "") + (lvl > 2 ? strf("/%u", l) : "");
            for(size_t i = 0; i < m.e.size(); ++i) if(same(m.e[i], t)) {
                if(lvl == 1) { m.e.erase(m.e.begin() + i); want = true; break; }
                if(m.e[i].leaf) { refuse = true; break; }
                MDir& d = m.e[i].sub;
                for(size_t j = 0; j < d.e.size(); ++j) if(same(d.e[j], n)) {
                    if(lvl == 2) { d.e.erase(d.e.begin() + j); want = true; }
                    else if(d.e[j].leaf) refuse = true;
                    else { MDir& q = d.e[j].sub; for(size_t k = 0; k < q.e.size(); ++k) if(!q.e[k].named && q.e[k].id == l) { q.e.erase(q.e.begin() + k); want = true; break; } if(want && q.e.empty()) d.e.erase(d.e.begin() + j); }
                    break;
                }
                if(want && d.e.empty()) m.e.erase(m.e.begin() + i);
                break;
            }
            auto go = [&] { switch(lvl) {
                case 1: got = t.named ? mg.remove_resource(tn) : mg.remove_resource_type(ty(t)); break;
                case 2: got = n.named ? ALT(t, mg.remove_resource(tn, nn), mg.remove_resource(ty(t), nn)) : ALT(t, mg.remove_resource(tn, n.id), mg.remove_resource(ty(t), n.id)); break;
                default: got = n.named ? ALT(t, mg.remove_resource(tn, nn, l), mg.remove_resource(ty(t), nn, l)) : ALT(t, mg.remove_resource(tn, n.id, l), mg.remove_resource(ty(t), n.id, l)); } };
            if(refuse) { m = before; mustRefuse("irregular-accepted", what + " under data", go); count("refused"); }
            else { mustWork("remove-refused", what, go); CHECK(got == want, "remove-result-wrong", "%s reported %d", what.c_str(), got); changed |= want; count(want ? "removed" : "absent-removals"); }
        }
        MDir g = fromLib(root), w = m; sortDir(g); sortDir(w); std::string d = diffDir(g, w); CHECK(d.empty(), "tree-wrong", "after %s: %s", what.c_str(), d.c_str());
        queries(r, mg, m, t, n, l);
        { pe_resource_viewer v(root); queries(r, v, m, r.pick(tk), r.pick(nk), r.pick(lk)); }
    }
    if(m.e.empty()) { count("emptied"); } else if(r.chance(40)) {
        pe_base p = r.chance(50) ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); section s; s.set_name("rs"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s);
        resource_directory copy = root; mustWork("rebuild-refused", "writing the edited tree", [&] { rebuild_resources(p, copy, p.get_image_sections()[0], static_cast<u32>(r.below(40)), true, r.chance(50)); });
        KResources k; k.d = m; k.rebuilt = true; sortDir(k.d); checkStored(p, k, "after edits"); count("written-back");
        Bytes f = writePe(p); pe_base z = openPe(f); resource_directory back = get_resources(z); pe_resource_viewer v(back); for(int i = 0; i < 3; ++i) queries(r, v, m, r.pick(tk), r.pick(nk), r.pick(lk));
    }
    if(changed) nontrivial(tr ^ idx * 0x9E3779B97F4A7C15ull);
    sample(strf("history of %d edits", steps));
}
