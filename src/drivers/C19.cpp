// Icon and cursor groups against a model of the resource tree
#include "../gens.h"
#include <algorithm>
#include <set>
extern const char* const PROPERTY = "C19";
extern const char* const RULE = "each case takes a resource tree (empty, with unrelated resources, with foreign groups and images that share numbers across languages or use the limits of the number space) and applies a random history of adding generated icon and cursor files (shuffled, spaced or shared image data) by name or number under both numbering policies, removing groups, and adding malformed files; after each step the whole tree is compared with an independently computed one, and groups and single images read back by name, number, language and position are compared with the expected file bytes; at the end the tree may be written and read back; non-trivial: at least one file added and read back; distinct by history";
u64 num_cases(bool t) { return t ? 300000 : 9000; }
void setup() {}
typedef pe_resource_viewer V;
struct Key { bool named; std::u16string name; u32 id; };
struct Pic { u8 w, h, colors, res; u16 a, b; Bytes data; };  // a, b: planes and depth, or hotspot
struct PicFile { u16 reserved, type; std::vector<Pic> p; };
static bool same(const MEnt& e, const Key& k) { return e.named == k.named && (k.named ? e.name == k.name : e.id == k.id); }
static MEnt* find(MDir& d, const Key& k) { for(MEnt& e : d.e) if(same(e, k)) return &e; return 0; }
static Key num(u32 i) { return Key{false, std::u16string(), i}; }
static MEnt* leaf(MDir& m, u32 t, const Key& n, u32 l) { MEnt* e = find(m, num(t)); if(!e) return 0; e = find(e->sub, n); return e ? find(e->sub, num(l)) : 0; }
static MEnt& sub(MDir& d, const Key& k, u32 ts) { MEnt* e = find(d, k); if(e) return *e; MEnt x; x.leaf = false; x.named = k.named; x.name = k.name; x.id = k.named ? 0 : k.id; x.sub.ts = ts; d.e.push_back(x); return d.e.back(); }
static void put(MDir& m, u32 t, const Key& n, u32 l, const Bytes& data, u32 cp, u32 ts) { MDir& d = sub(sub(m, num(t), ts).sub, n, ts).sub; MEnt* e = find(d, num(l)); if(!e) { MEnt x; x.id = l; d.e.push_back(x); e = &d.e.back(); } e->data = data; e->cp = cp; }
static bool drop(MDir& m, u32 t, const Key& n, u32 l) {
    for(size_t i = 0; i < m.e.size(); ++i) if(same(m.e[i], num(t))) { MDir& d = m.e[i].sub; for(size_t j = 0; j < d.e.size(); ++j) if(same(d.e[j], n)) { MDir& q = d.e[j].sub; for(size_t k = 0; k < q.e.size(); ++k) if(same(q.e[k], num(l))) {
        q.e.erase(q.e.begin() + k); if(q.e.empty()) { d.e.erase(d.e.begin() + j); if(d.e.empty()) m.e.erase(m.e.begin() + i); } return true; } } }
    return false;
}
static void p16(Bytes& b, u32 v) { b += static_cast<char>(v); b += static_cast<char>(v >> 8); }
static void p32(Bytes& b, u32 v) { p16(b, v); p16(b, v >> 16); }
static u32 g16(const Bytes& b, size_t o) { return static_cast<u8>(b[o]) | static_cast<u8>(b[o + 1]) << 8; }
static u32 g32(const Bytes& b, size_t o) { return g16(b, o) | g16(b, o + 2) << 16; }
struct Fmt { bool cur; u32 img, grp; };
static const Fmt ICO = {false, 3, 14}, CUR = {true, 1, 12};
static Bytes entry(const Fmt& f, const Pic& p, u32 number) { // group entry
    Bytes b; if(f.cur) { p16(b, p.w); p16(b, p.h * 2); p16(b, 0); p16(b, 0); p32(b, static_cast<u32>(p.data.size()) + 4); } else { b += static_cast<char>(p.w); b += static_cast<char>(p.h); b += static_cast<char>(p.colors); b += static_cast<char>(p.res); p16(b, p.a); p16(b, p.b); p32(b, static_cast<u32>(p.data.size())); }
    p16(b, number); return b;
}
static Bytes image(const Fmt& f, const Pic& p) { Bytes b; if(f.cur) { p16(b, p.a); p16(b, p.b); } return b + p.data; }
// Canonical file: images in order right after the headers
static Bytes canonical(const Fmt& f, u32 reserved, u32 type, const std::vector<Pic>& v) {
    Bytes b; p16(b, reserved); p16(b, type); p16(b, static_cast<u32>(v.size())); u32 o = static_cast<u32>(6 + 16 * v.size());
    for(const Pic& p : v) { b += static_cast<char>(p.w); b += static_cast<char>(p.h); b += static_cast<char>(f.cur ? 0 : p.colors); b += static_cast<char>(f.cur ? 0 : p.res); p16(b, p.a); p16(b, p.b); p32(b, static_cast<u32>(p.data.size())); p32(b, o); o += static_cast<u32>(p.data.size()); }
    for(const Pic& p : v) b += p.data;
    return b;
}
// What the group stored in the tree stands for, decoded independently; false when an image is missing
static bool decode(const Fmt& f, MDir& m, const Bytes& g, u32 lang, PicFile& o, std::vector<u32>& nums) {
    if(g.size() < 6 || g.size() < 6 + 14 * static_cast<size_t>(g16(g, 4))) return false;
    o.reserved = g16(g, 0); o.type = g16(g, 2); o.p.clear(); nums.clear();
    for(u32 i = 0; i < g16(g, 4); ++i) {
        size_t q = 6 + 14 * i; Pic p; u32 n = g16(g, q + 12); MEnt* e = leaf(m, f.img, num(n), lang); if(!e) return false; nums.push_back(n); u32 size = g32(g, q + 8);
        p.colors = p.res = 0;
        if(f.cur) { if(e->data.size() < 4 || size != e->data.size()) return false; p.w = g16(g, q); p.h = static_cast<u8>(g16(g, q + 2) / 2); p.a = g16(e->data, 0); p.b = g16(e->data, 2); p.data = e->data.substr(4); }
        else { if(size != e->data.size()) return false; p.w = g[q]; p.h = g[q + 1]; p.colors = g[q + 2]; p.res = g[q + 3]; p.a = g16(g, q + 4); p.b = g16(g, q + 6); p.data = e->data; }
        o.p.push_back(p);
    }
    return true;
}
static Pic genPic(Rng& r) { Pic p; p.w = static_cast<u8>(r.chance(30) ? r.below(2) * 255 : r.below(256)); p.h = static_cast<u8>(r.chance(30) ? (r.chance(50) ? 0 : r.range(126, 130)) : r.below(256)); p.colors = static_cast<u8>(r.chance(50) ? 0 : r.below(256)); p.res = static_cast<u8>(r.chance(80) ? 0 : r.below(256)); p.a = static_cast<u16>(r.chance(70) ? r.below(40) : r.edge32()); p.b = static_cast<u16>(r.chance(70) ? r.below(33) : r.edge32()); p.data = r.bytes(1 + r.below(r.chance(5) ? 2000 : 20)); if(r.chance(1)) p.data.append(65400 + r.below(300), static_cast<char>(r.below(256))); return p; }
static PicFile genFile(Rng& r, const Fmt& f, size_t n) { PicFile o; o.reserved = static_cast<u16>(r.chance(90) ? 0 : r.edge32()); o.type = f.cur ? 2 : 1; for(size_t i = 0; i < n; ++i) { o.p.push_back(genPic(r)); if(i && r.chance(10)) o.p[i].data = o.p[r.below(i)].data; } return o; }
// Any valid file layout of the images
static Bytes layoutFile(Rng& r, const PicFile& f) {
    size_t n = f.p.size(); Bytes b; p16(b, f.reserved); p16(b, f.type); p16(b, static_cast<u32>(n)); b.resize(6 + 16 * n);
    std::vector<size_t> ord; for(size_t i = 0; i < n; ++i) ord.push_back(i); if(r.chance(50)) r.shuffle(ord); bool gaps = r.chance(30);
    std::vector<u32> off(n); for(size_t i : ord) { if(gaps) b += r.bytes(r.below(6)); size_t at = r.chance(30) ? b.find(f.p[i].data, 6 + 16 * n) : Bytes::npos; if(at == Bytes::npos) { at = b.size(); b += f.p[i].data; } off[i] = static_cast<u32>(at); }
    if(gaps) b += r.bytes(r.below(6));
    for(size_t i = 0; i < n; ++i) { const Pic& p = f.p[i]; Bytes e; e += static_cast<char>(p.w); e += static_cast<char>(p.h); e += static_cast<char>(p.colors); e += static_cast<char>(p.res); p16(e, p.a); p16(e, p.b); p32(e, static_cast<u32>(p.data.size())); p32(e, off[i]); b.replace(6 + 16 * i, 16, e); }
    return b;
}
static Bytes damage(Rng& r, Bytes b) { // a file that no reader could use
    size_t n = g16(b, 4), i = r.below(n), q = 6 + 16 * i; auto set = [&](size_t o, u32 v) { Bytes e; p32(e, v); b.replace(o, 4, e); };
    switch(r.below(6)) {
    case 0: b.resize(r.below(6 + 16 * n)); break;
    case 1: b[4] = b[5] = 0; break;
    case 2: set(q + 8, 0); break;
    case 3: set(q + 12, static_cast<u32>(b.size() - g32(b, q + 8) + 1 + r.below(100))); break;
    case 4: set(q + 8, static_cast<u32>(0xFFFFFFFFu - r.below(g32(b, q + 12)))); break;
    default: set(q + 12, r.chance(50) ? static_cast<u32>(r.below(6 + 16 * n)) : 0xFFFFFFFFu - static_cast<u32>(r.below(g32(b, q + 8)))); break;
    }
    return b;
}
static u32 policyIds(MDir& m, const Fmt& f, bool after, size_t n, std::vector<u32>& out) { // returns how many could be given out
    std::set<u32> used; MEnt* t = find(m, num(f.img)); if(t) for(const MEnt& e : t->sub.e) if(!e.named && e.id <= 0xFFFF) used.insert(e.id);
    u32 c = after ? (used.empty() ? 1 : *used.rbegin() + 1) : 1;
    for(; out.size() < n && c <= 0xFFFF; ++c) if(!used.count(c)) out.push_back(c);
    return static_cast<u32>(out.size());
}
struct T { resource_directory root; MDir m; std::vector<Key> keys; std::vector<u32> langs; };
static void compareTree(T& t, const std::string& what) { MDir g = fromLib(t.root), w = t.m; sortDir(g); sortDir(w); std::string d = diffDir(g, w); CHECK(d.empty(), "tree-wrong", "after %s: %s", what.c_str(), d.c_str()); }
static std::string readAll(const Fmt& f, const resource_directory& root, const Key& k, u32 lang, int how, u32 index) {
    pe_resource_viewer v(root); resource_cursor_icon_reader rd(v); std::wstring n = wide(k.name);
    if(how == 0) return k.named ? (f.cur ? rd.get_cursor_by_name(lang, n) : rd.get_icon_by_name(lang, n)) : (f.cur ? rd.get_cursor_by_id_lang(lang, k.id) : rd.get_icon_by_id_lang(lang, k.id));
    if(index == 0 && how == 2) return k.named ? (f.cur ? rd.get_cursor_by_name(n) : rd.get_icon_by_name(n)) : (f.cur ? rd.get_cursor_by_id(k.id) : rd.get_icon_by_id(k.id));
    return k.named ? (f.cur ? rd.get_cursor_by_name(n, index) : rd.get_icon_by_name(n, index)) : (f.cur ? rd.get_cursor_by_id(k.id, index) : rd.get_icon_by_id(k.id, index));
}
static void readGroups(Rng& r, const Fmt& f, T& t, const resource_directory& root, const char* when) {
    MEnt* gt = find(t.m, num(f.grp)); if(!gt) { mustRefuse("absent-answered", "reading a group of an empty tree", [&] { readAll(f, root, r.pick(t.keys), r.pick(t.langs), 0, 0); }); return; }
    V v(root);
    for(MEnt& g : gt->sub.e) {
        Key k{g.named, g.name, g.id}; V::resource_language_list order = g.named ? v.list_resource_languages(static_cast<V::resource_type>(f.grp), wide(g.name)) : v.list_resource_languages(static_cast<V::resource_type>(f.grp), g.id);
        for(u32 i = 0; i < order.size(); ++i) {
            MEnt* e = find(g.sub, num(order[i])); PicFile w; std::vector<u32> nums; if(!e || !decode(f, t.m, e->data, order[i], w, nums)) continue;
            Bytes want = canonical(f, w.reserved, w.type, w.p), got; int how = static_cast<int>(r.below(3));
            mustWork("read-refused", strf("reading a group of %zu images %s", w.p.size(), when), [&] { got = readAll(f, root, k, order[i], how, i); });
            CHECK(got == want, "group-wrong", "%s group of %zu images read %s (way %d): %s", f.cur ? "cursor" : "icon", w.p.size(), when, how, diffAt(got, want).c_str()); count("groups-read");
            if(w.p.size() && r.chance(50)) { // one image by itself; its number may be listed by several groups
                u32 at = static_cast<u32>(r.below(w.p.size())), n = nums[at]; std::set<Bytes> wants;
                for(MEnt& g2 : gt->sub.e) { MEnt* e2 = find(g2.sub, num(order[i])); PicFile w2; std::vector<u32> n2; if(!e2) continue; if(!decode(f, t.m, e2->data, order[i], w2, n2)) { wants.clear(); break; } for(size_t j = 0; j < n2.size(); ++j) if(n2[j] == n) wants.insert(canonical(f, w2.reserved, w2.type, std::vector<Pic>(1, w2.p[j]))); }
                if(wants.empty()) continue;
                V::resource_language_list io = v.list_resource_languages(static_cast<V::resource_type>(f.img), n); u32 pos = static_cast<u32>(std::find(io.begin(), io.end(), order[i]) - io.begin()); resource_cursor_icon_reader rd(v); bool byPos = r.chance(50);
                mustWork("single-refused", strf("image %u %s", n, when), [&] { got = byPos ? (f.cur ? rd.get_single_cursor_by_id(n, pos) : rd.get_single_icon_by_id(n, pos)) : f.cur ? rd.get_single_cursor_by_id_lang(order[i], n) : rd.get_single_icon_by_id_lang(order[i], n); });
                CHECK(wants.count(got), "single-wrong", "image %u %s: %s", n, when, diffAt(got, *wants.begin()).c_str()); count("singles-read");
                mustRefuse("absent-answered", "an image at a position beyond the last language", [&] { f.cur ? rd.get_single_cursor_by_id(n, static_cast<u32>(io.size())) : rd.get_single_icon_by_id(n, static_cast<u32>(io.size())); });
            }
        }
        mustRefuse("absent-answered", "a group at a position beyond the last language", [&] { readAll(f, root, k, 0, 1, static_cast<u32>(order.size()) + static_cast<u32>(r.below(3))); });
    }
}
static void start(Rng& r, T& t) {
    for(int i = 0; i < 4; ++i) { Key k; k.named = r.chance(50); k.id = 0; if(k.named) k.name = genName(r, 1, 6, r.chance(20)); else k.id = r.chance(70) ? static_cast<u32>(r.below(4)) : r.edge32() & 0x7FFFFFFF; t.keys.push_back(k); }
    t.langs.push_back(1033); t.langs.push_back(r.chance(50) ? 0 : r.edge32() & 0x7FFFFFFF); if(r.chance(50)) t.langs.push_back(1049);
    if(r.chance(50)) { MDir o = genResDir(r, 3, 3, 10); for(MEnt& e : o.e) if(e.named || (e.id != 1 && e.id != 3 && e.id != 12 && e.id != 14)) t.m.e.push_back(e); genDirAttrs(r, t.m); }
    for(int k = 0; k < 2; ++k) if(r.chance(50)) { // foreign groups and images
        const Fmt& f = k ? CUR : ICO; u32 base = r.chance(15) ? 65530 : 1;
        for(u64 g = r.below(4); g; --g) {
            PicFile pf = genFile(r, f, 1 + r.below(4)); Key key = r.pick(t.keys); std::vector<u32> nums; u32 ts = r.u32v(); for(size_t i = 0; i < pf.p.size(); ++i) nums.push_back(base + static_cast<u32>(r.below(base > 1 ? 6 : 20)));
            size_t nl = r.chance(40) ? t.langs.size() : 1; // the same numbers in several languages
            for(size_t l = 0; l < nl; ++l) { Bytes gd; p16(gd, pf.reserved); p16(gd, pf.type); p16(gd, static_cast<u32>(pf.p.size())); for(size_t i = 0; i < pf.p.size(); ++i) { gd += entry(f, pf.p[i], nums[i]); put(t.m, f.img, num(nums[i]), t.langs[l], image(f, pf.p[i]), r.u32v() & 0xFFFF, ts); } put(t.m, f.grp, key, t.langs[l], gd, r.u32v() & 0xFFFF, ts); if(l + 1 < nl) for(Pic& p : pf.p) p = genPic(r); }
        }
        if(r.chance(20)) put(t.m, f.img, num(r.edge32() & 0x7FFFFFFF), 1033, r.bytes(6), 0, 0);  // stray image with any number
        if(r.chance(15)) { Key k2; k2.named = true; k2.name = u"img"; k2.id = 0; put(t.m, f.img, k2, 1033, r.bytes(6), 0, 0); }
    }
    t.root = toLib(t.m);
}
static void nearlyFull(Rng& r) { // an existing group that has room for only a few more
    const Fmt& f = r.chance(50) ? CUR : ICO; T t; t.keys.push_back(num(1)); t.langs.push_back(0); u32 room = static_cast<u32>(1 + r.below(3)), n = 65535 - room; Pic p = genPic(r);
    put(t.m, f.img, num(7), 0, image(f, p), 0, 0); Bytes gd; p16(gd, 0); p16(gd, f.cur ? 2 : 1); p16(gd, n); Bytes e = entry(f, p, 7); for(u32 i = 0; i < n; ++i) gd += e; put(t.m, f.grp, num(1), 0, gd, 0, 0); t.root = toLib(t.m);
    pe_resource_manager mg(t.root); resource_cursor_icon_writer w(mg); u32 k = room + static_cast<u32>(r.chance(50) ? 0 : r.chance(50) ? 1 : 2); if(r.chance(30) && k > 1) --k; PicFile pf = genFile(r, f, k); pf.type = f.cur ? 2 : 1; Bytes b = canonical(f, 0, pf.type, pf.p);
    bool after = r.chance(50); std::vector<u32> ids; policyIds(t.m, f, after, k, ids);
    auto go = [&] { auto mode = after ? resource_cursor_icon_writer::icon_place_after_max_icon_id : resource_cursor_icon_writer::icon_place_free_ids; if(f.cur) w.add_cursor(b, 1, 0, mode); else w.add_icon(b, 1, 0, mode); };
    if(k > room) { mustRefuse("group-overfull", strf("%u images into a group of %u", k, n), go); compareTree(t, "a refused file"); count("full-groups-refused"); }
    else { mustWork("add-refused", strf("%u images into a group of %u", k, n), go); Bytes g = mg.get_resource_data_by_id(0, static_cast<V::resource_type>(f.grp), 1).get_data(); Bytes want = gd; wrn(want, 4, n + k, 2); for(u32 i = 0; i < k; ++i) want += entry(f, pf.p[i], ids[i]); CHECK(g == want, "group-wrong", "%u images added to a group of %u: %s", k, n, diffAt(g, want).c_str()); count("nearly-full-groups"); }
    nontrivial(r.next());
}
static void many(Rng& r, bool big) { // the largest groups and the end of the number space
    const Fmt& f = r.chance(50) ? CUR : ICO; T t; t.keys.push_back(num(1)); t.langs.push_back(0); size_t n = big ? (r.chance(50) ? 65535 : 65534) : 3000; if(r.chance(30)) { put(t.m, f.img, num(static_cast<u32>(1 + r.below(65535))), 5, "abcd", 0, 0); t.root = toLib(t.m); }
    PicFile pf; pf.reserved = 0; pf.type = f.cur ? 2 : 1; Pic p = genPic(r); p.data.resize(1); pf.p.assign(n, p); Bytes b = canonical(f, 0, pf.type, pf.p); bool after = r.chance(50); std::vector<u32> ids; bool fits = policyIds(t.m, f, after, n, ids) == n;
    pe_resource_manager mg(t.root); resource_cursor_icon_writer w(mg); auto go = [&] { auto mode = after ? resource_cursor_icon_writer::icon_place_after_max_icon_id : resource_cursor_icon_writer::icon_place_free_ids; if(f.cur) w.add_cursor(b, 1, 0, mode); else w.add_icon(b, 1, 0, mode); };
    if(!fits) { mustRefuse("ids-exhausted", "more images than free numbers", go); compareTree(t, "a refused file"); count("limit-refused"); }
    else { mustWork("add-refused", strf("a file of %zu images", n), go); std::set<u32> u(ids.begin(), ids.end()); V::resource_id_list l = mg.list_resource_ids(static_cast<V::resource_type>(f.img)); for(const MEnt& e : (find(t.m, num(f.img)) ? find(t.m, num(f.img))->sub.e : std::vector<MEnt>())) u.insert(e.id); CHECK(std::set<u32>(l.begin(), l.end()) == u && l.size() == u.size(), "ids-wrong", "%zu images numbered wrongly", n); count("limit-added");
        if(n > 60000) { PicFile one = genFile(r, f, 65536 - n); Bytes ob = canonical(f, 0, one.type, one.p); mustRefuse("group-overfull", "a group of more than 65535 images", [&] { if(f.cur) w.add_cursor(ob, 1, 0); else w.add_icon(ob, 1, 0); }); } }
    nontrivial(r.next());
}
void run_case(Rng& r, u64 idx) {
    if(idx % 2000 == 7) { many(r, idx % 20000 == 7); return; }
    if(idx % 500 == 9) { nearlyFull(r); return; }
    T t; start(r, t); bool added = false; int steps = static_cast<int>(1 + r.below(8)); u64 tr = r.next();
    pe_resource_manager mg(t.root); resource_cursor_icon_writer w(mg);
    for(int s = 0; s < steps; ++s) {
        const Fmt& f = r.chance(50) ? CUR : ICO; Key k = r.pick(t.keys); u32 lang = r.pick(t.langs); std::wstring n = wide(k.name); std::string what;
        if(r.chance(70)) {
            PicFile pf = genFile(r, f, 1 + r.below(r.chance(5) ? 30 : 4)); Bytes b = layoutFile(r, pf); bool bad = r.chance(15); if(bad) b = damage(r, b); note_input(b);
            u32 cp = r.chance(50) ? 0 : r.u32v() & 0xFFFF, ts = r.chance(50) ? 0 : r.u32v(); bool after = r.chance(50), defs = r.chance(15); if(defs) { cp = ts = 0; after = true; }
            auto mode = after ? resource_cursor_icon_writer::icon_place_after_max_icon_id : resource_cursor_icon_writer::icon_place_free_ids;
            auto go = [&] { if(defs) { if(f.cur) { if(k.named) w.add_cursor(b, n, lang); else w.add_cursor(b, k.id, lang); } else { if(k.named) w.add_icon(b, n, lang); else w.add_icon(b, k.id, lang); } }
                else if(f.cur) { if(k.named) w.add_cursor(b, n, lang, mode, cp, ts); else w.add_cursor(b, k.id, lang, mode, cp, ts); } else { if(k.named) w.add_icon(b, n, lang, mode, cp, ts); else w.add_icon(b, k.id, lang, mode, cp, ts); } };
            what = strf("adding %s file of %zu images (%s)", f.cur ? "cursor" : "icon", pf.p.size(), after ? "after all" : "free numbers");
            std::vector<u32> ids; bool fits = policyIds(t.m, f, after, pf.p.size(), ids) == pf.p.size();
            if(bad) { mustRefuse("malformed-accepted", "malformed file: " + what, go); count("malformed-refused"); }
            else if(!fits) { mustRefuse("ids-exhausted", what, go); count("limit-refused"); }
            else {
                mustWork("add-refused", what, go); added = true; count(after ? "added-after" : "added-free");
                MEnt* e = leaf(t.m, f.grp, k, lang); Bytes g; if(e) { g = e->data; cp = e->cp; count("appended"); } else { p16(g, pf.reserved); p16(g, pf.type); p16(g, 0); }
                u32 c = g16(g, 4) + static_cast<u32>(pf.p.size()); g.resize(6 + 14 * g16(g, 4)); g[4] = static_cast<char>(c); g[5] = static_cast<char>(c >> 8);
                for(size_t i = 0; i < pf.p.size(); ++i) { g += entry(f, pf.p[i], ids[i]); put(t.m, f.img, num(ids[i]), lang, image(f, pf.p[i]), cp, ts); }
                put(t.m, f.grp, k, lang, g, cp, ts);
            }
        } else {
            MEnt* e = leaf(t.m, f.grp, k, lang); bool got = false; what = strf("removing %s group", f.cur ? "cursor" : "icon");
            auto go = [&] { got = f.cur ? (k.named ? w.remove_cursor_group(n, lang) : w.remove_cursor_group(k.id, lang)) : (k.named ? w.remove_icon_group(n, lang) : w.remove_icon_group(k.id, lang)); };
            if(!e) { mustRefuse("absent-answered", what + " that does not exist", go); count("absent-removals"); }
            else { mustWork("remove-refused", what, go); CHECK(got, "remove-result-wrong", "%s reported failure", what.c_str()); Bytes g = e->data; for(u32 i = 0; i < g16(g, 4); ++i) drop(t.m, f.img, num(g16(g, 6 + 14 * i + 12)), lang); drop(t.m, f.grp, k, lang); count("removed"); }
        }
        compareTree(t, what);
        readGroups(r, f, t, t.root, what.c_str());
    }
    if(t.m.e.size() && r.chance(20)) {
        pe_base p = r.chance(50) ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); section s; s.set_name("rs"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s);
        resource_directory copy = t.root; mustWork("rebuild-refused", "writing the tree", [&] { rebuild_resources(p, copy, p.get_image_sections()[0], 0, true, r.chance(50)); });
        KResources k; k.d = t.m; k.rebuilt = true; sortDir(k.d); checkStored(p, k, "with icons"); Bytes f = writePe(p); pe_base z = openPe(f); resource_directory back = get_resources(z);
        readGroups(r, ICO, t, back, "after writing"); readGroups(r, CUR, t, back, "after writing"); count("written-back");
    }
    if(added) nontrivial(tr);
    sample(strf("history of %d steps", steps));
}
