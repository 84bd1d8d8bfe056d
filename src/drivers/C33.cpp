// Damaged directories: a reader refuses or returns exactly what is stored where the pointers point
#include "../gens.h"
#include <set>
extern const char* const PROPERTY = "C33";
extern const char* const RULE = "each case plants one directory (imports, exports, relocations, TLS, load configuration, bound imports, resources, debug, exceptions or .NET header) in a generated image, damages fields of its tables, its strings or its entry in the data directory table, opens the result from a file, a copy or a memory dump, runs that directory's reader and compares what it returned with a lenient independent decoder of the mapped image: equal, or refused with the library's exception; where the decoder leaves the image or meets a value that is no address of it, only a refusal is accepted; non-trivial: the damage changed the bytes; distinct by file";
u64 num_cases(bool t) { return t ? 6000000 : 240000; }
void setup() {}
namespace {
struct W { std::string s; W& n(u64 v) { s += strf("%llx,", static_cast<unsigned long long>(v)); return *this; } W& t(const std::string& v) { if(s.size() > (16u << 20)) throw CaseSkip(); s += strf("%zu:", v.size()); s += v; s += ','; return *this; } W& c(const char* v) { s += v; return *this; } };
struct Ref { const Mem& m; bool p64; u64 base; u32 rva, size; const Bytes& file; const Img& im; u64 w() const { return p64 ? 8 : 4; }
    u32 toRva(u64 va) const { if(va < base || va - base > 0xFFFFFFFFull) bad("%llx is no address of the image", (unsigned long long)va); return static_cast<u32>(va - base); } };
const int LIMIT = 200000;
void endless(int& n) { if(++n > LIMIT) bad("endless"); }

// ---- what is stored
std::string refImports(const Ref& x) {
    W t; u64 flag = x.p64 ? 1ull << 63 : 1ull << 31; int steps = 0; if(!x.rva) return "";
    for(u64 d = x.rva;; d += 20) {
        x.m.at(d, 20); u32 oft = x.m.r32(d), name = x.m.r32(d + 12), iat = x.m.r32(d + 16); if(!name) break;
        t.t(x.m.str(name)).n(iat).n(oft).n(x.m.r32(d + 4)); u64 look = oft ? oft : iat;
        for(u64 i = 0;; ++i) {
            endless(steps); u64 v = x.m.rw(look + i * x.w(), x.p64); if(!v) break; u64 a = x.m.rw(static_cast<u64>(iat) + i * x.w(), x.p64);
            if(v & flag) t.c("#").n(v & 0xFFFF).n(a); else { if(v > 0xFFFFFFFFull) bad("%llx is no address", (unsigned long long)v); std::string nm = x.m.str(v + 2); u16 hint = x.m.r16(v); if(nm.empty()) t.c("#").n(0).n(a); else t.n(hint).t(nm).n(a); }   // an empty name cannot be told from none through the interface
        }
        t.c("\n"); endless(steps);
    }
    return t.s;
}
std::string libImports(const pe_base& p) { W t; for(const import_library& l : get_imported_functions(p)) { t.t(l.get_name()).n(l.get_rva_to_iat()).n(l.get_rva_to_original_iat()).n(l.get_timestamp());
    for(const imported_function& f : l.get_imported_functions()) if(f.has_name()) t.n(f.get_hint()).t(f.get_name()).n(f.get_iat_va()); else t.c(f.get_ordinal() && f.get_hint() ? "!" : "#").n(f.get_ordinal()).n(f.get_iat_va()); t.c("\n"); } return t.s; }

std::string refExports(const Ref& x) {
    if(!x.rva) return ""; W t; u64 d = x.rva; x.m.at(d, 40); u32 nf = x.m.r32(d + 20), nn = x.m.r32(d + 24), af = x.m.r32(d + 28), an = x.m.r32(d + 32), ao = x.m.r32(d + 36), ob = x.m.r32(d + 16);
    t.n(x.m.r32(d)).n(x.m.r32(d + 4)).n(x.m.r16(d + 8)).n(x.m.r16(d + 10)).t(x.m.str(x.m.r32(d + 12))).n(ob).n(nf).n(nn).n(af).n(an).n(ao); if(!nf) return t.s;
    x.m.at(af, 4ull * nf); std::map<u32, u32> first; if(nn) { x.m.at(ao, 2ull * nn); x.m.at(an, 4ull * nn); for(u32 i = 0; i < nn; ++i) first.insert(std::make_pair(x.m.r16(ao + 2ull * i), i)); }
    for(u32 i = 0; i < nf; ++i) {
        u32 rva = x.m.r32(af + 4ull * i); if(!rva) continue; if(static_cast<u64>(ob) + i > 0xFFFF) bad("ordinal %llx", (unsigned long long)ob + i);
        t.n(ob + i).n(rva); auto n = first.find(i); std::string nm; if(n != first.end()) nm = x.m.str(x.m.r32(an + 4ull * n->second)); if(nm.empty()) t.c("-"); else t.t(nm);   // an empty name cannot be told from none through the interface
        // the first bytes of the directory are its header: a forwarder string cannot begin there
        if(rva >= x.rva && rva - static_cast<u64>(x.rva) < 40 && x.size > rva - x.rva) throw CaseSkip();
        if(rva >= x.rva && rva < static_cast<u64>(x.rva) + x.size) { std::string fw = x.m.str(rva); if(!fw.empty()) t.c(">").t(fw); } t.c("\n");
    }
    return t.s;
}
std::string libExports(const pe_base& p) { W t; export_info i; exported_functions_list l = get_exported_functions(p, i); if(!p.has_exports()) return "";
    t.n(i.get_characteristics()).n(i.get_timestamp()).n(i.get_major_version()).n(i.get_minor_version()).t(i.get_name()).n(i.get_ordinal_base()).n(i.get_number_of_functions()).n(i.get_number_of_names()).n(i.get_rva_of_functions()).n(i.get_rva_of_names()).n(i.get_rva_of_name_ordinals());
    exported_functions_list l2 = get_exported_functions(p); CHECK(l2.size() == l.size(), "readers-differ", "reading exports with and without their header: %zu and %zu functions", l.size(), l2.size());
    for(const exported_function& f : l) { t.n(f.get_ordinal()).n(f.get_rva()); if(f.has_name()) t.t(f.get_name()); else t.c("-"); if(f.is_forwarded()) t.c(">").t(f.get_forwarded_name()); t.c("\n"); } return t.s; }
std::string refRelocs(const Ref& x) {
    if(!x.rva || !x.size) return ""; W t; int steps = 0;
    for(u64 done = 0; done < x.size;) {
        u64 a = x.rva + done; x.m.at(a, 8); u32 page = x.m.r32(a), n = x.m.r32(a + 4); if(!n) break; if(n < 8 || n % 2) bad("block of %u bytes", n);
        t.n(page); x.m.at(a, n); for(u32 k = 8; k < n; k += 2) t.n(x.m.r16(a + k)); t.c("\n"); done += n; endless(steps);
    }
    return t.s;
}
std::string libRelocs(const pe_base& p) { W t; relocation_table_list l = get_relocations(p, true), s = get_relocations(p); CHECK(l.size() == s.size(), "readers-differ", "reading relocations with and without padding entries: %zu and %zu tables", l.size(), s.size());
    for(size_t i = 0; i < l.size(); ++i) { t.n(l[i].get_rva()); size_t k = 0; for(const relocation_entry& e : l[i].get_relocations()) { u16 v = e.get_item(); CHECK(e.get_type() == v >> 12 && e.get_rva() == (v & 0xFFF), "entry-split", "entry %x: type %x offset %x", v, e.get_type(), e.get_rva()); t.n(v);
            if(v >> 12) { CHECK(k < s[i].get_relocations().size() && s[i].get_relocations()[k].get_item() == v, "readers-differ", "table %zu without padding entries differs at %zu", i, k); ++k; } }
        CHECK(s[i].get_rva() == l[i].get_rva() && s[i].get_relocations().size() == k, "readers-differ", "table %zu without padding entries", i); t.c("\n"); } return t.s; }
std::string refTls(const Ref& x) {
    if(!x.rva) bad("no directory"); W t; u64 a = x.rva, w = x.w(); x.m.at(a, x.p64 ? 40 : 24); u64 s = x.m.rw(a, x.p64), e = x.m.rw(a + w, x.p64), i = x.m.rw(a + 2 * w, x.p64), c = x.m.rw(a + 3 * w, x.p64); u32 z = x.m.r32(a + 4 * w), ch = x.m.r32(a + 4 * w + 4);
    if(s == e && (s < x.base || s - x.base > 0xFFFFFFFFull)) s = e = 0;      // empty data anywhere means no data
    Bytes raw; if(s && s != e) { if(e < s) bad("data ends before it begins"); raw = x.m.bytes(x.toRva(s), e - s); }
    t.n(s ? x.toRva(s) : 0).n(e ? x.toRva(e) : 0).n(i ? x.toRva(i) : 0).n(c ? x.toRva(c) : 0).n(z).n(ch).t(raw);
    int steps = 0; if(c && x.toRva(c)) for(u64 k = 0;; k += w) { u64 v = x.m.rw(x.toRva(c) + k, x.p64); if(!v) break; t.n(static_cast<u32>(v - x.base)); endless(steps); }
    return t.s;
}
std::string libTls(const pe_base& p) { W t; const tls_info i = get_tls_info(p); t.n(i.get_raw_data_start_rva()).n(i.get_raw_data_end_rva()).n(i.get_index_rva()).n(i.get_callbacks_rva()).n(i.get_size_of_zero_fill()).n(i.get_characteristics()).t(i.get_raw_data()); for(u32 c : i.get_tls_callbacks()) t.n(c); return t.s; }
std::string refConfig(const Ref& x) {
    if(!x.rva) bad("no directory"); W t; u64 a = x.rva; u32 need = x.p64 ? 112 : 72; x.m.at(a, need); if(x.m.r32(a) < need) bad("size %u", x.m.r32(a));
    const bool q = x.p64; u64 lock, table, count;
    t.n(x.m.r32(a + 4)).n(x.m.r16(a + 8)).n(x.m.r16(a + 10)).n(x.m.r32(a + 12)).n(x.m.r32(a + 16)).n(x.m.r32(a + 20));
    if(q) { lock = x.m.r64(a + 40); table = x.m.r64(a + 96); count = x.m.r64(a + 104); t.n(x.m.r64(a + 24)).n(x.m.r64(a + 32)).n(lock).n(x.m.r64(a + 48)).n(x.m.r64(a + 56)).n(x.m.r64(a + 64)).n(x.m.r32(a + 72)).n(x.m.r16(a + 76)).n(x.m.r64(a + 80)).n(x.m.r64(a + 88)).n(table).n(count); }
    else { lock = x.m.r32(a + 32); table = x.m.r32(a + 64); count = x.m.r32(a + 68); t.n(x.m.r32(a + 24)).n(x.m.r32(a + 28)).n(lock).n(x.m.r32(a + 36)).n(x.m.r32(a + 40)).n(x.m.r32(a + 48)).n(x.m.r32(a + 44)).n(x.m.r16(a + 52)).n(x.m.r32(a + 56)).n(x.m.r32(a + 60)).n(table).n(count); }
    if(count > 0x40000000ull) bad("%llx handlers", (unsigned long long)count);
    if(count) { u32 h = x.toRva(table); x.m.at(h, 4 * count); std::set<u32> l; for(u64 k = 0; k < count; ++k) t.n(x.m.r32(h + 4 * k)); } t.c("\n");
    int steps = 0; if(lock) for(u64 k = 0;; k += x.w()) { u64 v = x.m.rw(x.toRva(lock) + k, q); if(!v) break; t.n(x.toRva(v)); endless(steps); }
    return t.s;
}
std::string libConfig(const pe_base& p) { W t; const image_config_info i = get_image_config(p); t.n(i.get_time_stamp()).n(i.get_major_version()).n(i.get_minor_version()).n(i.get_global_flags_clear()).n(i.get_global_flags_set()).n(i.get_critical_section_default_timeout()).n(i.get_decommit_free_block_threshold()).n(i.get_decommit_total_free_threshold()).n(i.get_lock_prefix_table_va()).n(i.get_max_allocation_size()).n(i.get_virtual_memory_threshold()).n(i.get_process_affinity_mask()).n(i.get_process_heap_flags()).n(i.get_service_pack_version()).n(i.get_edit_list_va()).n(i.get_security_cookie_va()).n(i.get_se_handler_table_va()).n(i.get_se_handler_count());
    for(u32 x : i.get_se_handler_rvas()) t.n(x); t.c("\n"); for(u32 x : i.get_lock_prefix_rvas()) t.n(x); return t.s; }
std::string refBound(const Ref& x) {
    if(!x.rva) return ""; W t; u64 a = x.rva; int steps = 0; x.m.at(a, std::max<u32>(8, x.size));
    for(;;) { x.m.at(a, 8); u32 off = x.m.r16(a + 4), n = x.m.r16(a + 6); if(!off) break; t.t(x.m.str(x.rva + off)).n(x.m.r32(a)).n(n); a += 8;
        for(u32 i = 0; i < n; ++i, a += 8) { x.m.at(a, 8); t.t(x.m.str(static_cast<u64>(x.rva) + x.m.r16(a + 4))).n(x.m.r32(a)); endless(steps); } t.c("\n"); endless(steps); }
    return t.s;
}
std::string libBound(const pe_base& p) { W t; for(const bound_import& b : get_bound_import_module_list(p)) { t.t(b.get_module_name()).n(b.get_timestamp()).n(b.get_module_ref_count()); for(const bound_import_ref& x : b.get_module_ref_list()) t.t(x.get_module_name()).n(x.get_timestamp()); t.c("\n"); } return t.s; }
void refDir(const Ref& x, W& t, u64 off, int depth, int& steps) {
    if(depth > 60) bad("endless"); u64 a = x.rva + off; x.m.at(a, 16); u32 n = x.m.r16(a + 12) + x.m.r16(a + 14); t.c("{").n(x.m.r32(a)).n(x.m.r32(a + 4)).n(x.m.r16(a + 8)).n(x.m.r16(a + 10)).n(n).c("\n"); x.m.at(a, 16 + 8ull * n);
    for(u32 i = 0; i < n; ++i) {
        endless(steps); if(t.s.size() > (8u << 20)) throw CaseSkip();
        u32 name = x.m.r32(a + 16 + 8ull * i), to = x.m.r32(a + 20 + 8ull * i);
        if(name >> 31) { u64 p = x.rva + static_cast<u64>(name & 0x7FFFFFFF); u32 l = x.m.r16(p); t.c("'").t(x.m.bytes(p + 2, 2ull * l)); } else t.n(name);
        if(to >> 31) refDir(x, t, to & 0x7FFFFFFF, depth + 1, steps);
        else { u64 p = x.rva + static_cast<u64>(to); x.m.at(p, 16); u32 sz = x.m.r32(p + 4); t.n(x.m.r32(p + 8)).t(sz ? x.m.bytes(x.m.r32(p), sz) : Bytes()); }
    }
    t.c("}\n");
}
std::string refRes(const Ref& x) { if(!x.rva) return "{0,0,0,0,0,\n}\n"; W t; int steps = 0; refDir(x, t, 0, 0, steps); return t.s; }
void libDir(const resource_directory& d, W& t) {
    const auto& l = d.get_entry_list(); t.c("{").n(d.get_characteristics()).n(d.get_timestamp()).n(d.get_major_version()).n(d.get_minor_version()).n(l.size()).c("\n"); u32 named = 0;
    for(const resource_directory_entry& e : l) { if(e.is_named()) { ++named; Bytes b; for(char16_t c : narrow(e.get_name())) put16(b, c); t.c("'").t(b); } else t.n(e.get_id());
        if(e.includes_data()) t.n(e.get_data_entry().get_codepage()).t(e.get_data_entry().get_data()); else libDir(e.get_resource_directory(), t); }
    CHECK(d.get_number_of_named_entries() == named && d.get_number_of_id_entries() == l.size() - named, "entry-counters", "directory reports %u named and %u numbered entries but holds %u and %zu", d.get_number_of_named_entries(), d.get_number_of_id_entries(), named, l.size() - named);
    t.c("}\n");
}
std::string libRes(const pe_base& p) { W t; libDir(get_resources(p), t); return t.s; }
std::string refDebug(const Ref& x) {
    if(!x.rva) return ""; W t; int steps = 0; x.m.at(x.rva, 28);
    for(u64 a = x.rva; a < static_cast<u64>(x.rva) + x.size; a += 28) { x.m.at(a, 28); endless(steps); }
    for(u64 a = x.rva; a < static_cast<u64>(x.rva) + x.size; a += 28) {
        t.n(x.m.r32(a)).n(x.m.r32(a + 4)).n(x.m.r16(a + 8)).n(x.m.r16(a + 10)).n(x.m.r32(a + 12)).n(x.m.r32(a + 16)).n(x.m.r32(a + 20)).n(x.m.r32(a + 24)); u32 ptr = x.m.r32(a + 24); t.c("\x01");
        u64 n = x.m.r32(a + 16); Bytes b = n && ptr && ptr <= x.file.size() && n <= x.file.size() - ptr ? x.file.substr(ptr, n) : Bytes();
        if(x.m.r32(a + 12) == 2 && b.size() > 24 && b.compare(0, 4, "RSDS") == 0) { size_t z = b.find('\0', 24); if(z != Bytes::npos) t.c("7").t(b.substr(4, 16)).n(rd32(b, 20)).t(b.substr(24, z - 24)); }
        else if(x.m.r32(a + 12) == 2 && b.size() > 16 && b.compare(0, 4, "NB10") == 0) { size_t z = b.find('\0', 16); if(z != Bytes::npos) t.c("2").n(rd32(b, 8)).n(rd32(b, 12)).t(b.substr(16, z - 16)); }
        t.c("\x02");
    }
    return t.s;
}
std::string libDebug(const pe_base& p) { W t; for(const debug_info& d : get_debug_information(p)) { t.n(d.get_characteristics()).n(d.get_time_stamp()).n(d.get_major_version()).n(d.get_minor_version()).n(d.get_type_raw()).n(d.get_size_of_data()).n(d.get_rva_of_raw_data()).n(d.get_pointer_to_raw_data()); t.c("\x01");
        if(d.get_advanced_info_type() == debug_info::advanced_info_pdb_7_0) { const pdb_7_0_info i = d.get_advanced_debug_info<pdb_7_0_info>(); pe_win::guid g = i.get_guid(); t.c("7").t(Bytes(reinterpret_cast<char*>(&g), 16)).n(i.get_age()).t(i.get_pdb_file_name()); }
        else if(d.get_advanced_info_type() == debug_info::advanced_info_pdb_2_0) { const pdb_2_0_info i = d.get_advanced_debug_info<pdb_2_0_info>(); t.c("2").n(i.get_signature()).n(i.get_age()).t(i.get_pdb_file_name()); }
        t.c("\x02"); } return t.s; }
// detailed information may be missing (its data could not be read), but not wrong
bool sameDebug(const std::string& g, const std::string& w) {
    size_t i = 0, k = 0; while(i < g.size() && k < w.size()) { size_t a = g.find('\x02', i), b = w.find('\x02', k); (void)a; (void)b; if(g[i] != w[k]) return false;
        if(g[i] == '\x01') { if(g[i + 1] == '\x02') { size_t e = k + 1; // skip w's detail: its length is known from its parts
                if(w[e] == '7' || w[e] == '2') { int parts = 3; ++e; for(int q = 0; q < parts; ++q) { size_t z = e; while(w[z] != ',' && w[z] != ':') ++z; if(w[z] == ':') { size_t len = strtoul(w.c_str() + e, 0, 10); e = z + 1 + len + 1; } else e = z + 1; } }
                i += 1; k = e; continue; } }
        ++i; ++k; }
    return i == g.size() && k == w.size();
}
std::string refExc(const Ref& x) {
    if(!x.rva) return ""; if(x.rva % 4) bad("misaligned"); W t; x.m.at(x.rva, 12); int steps = 0;
    for(u32 i = 0; i < x.size / 12; ++i) { u64 a = x.rva + 12ull * i; x.m.at(a, 12); u32 b = x.m.r32(a), e = x.m.r32(a + 4), u = x.m.r32(a + 8); if(!b) break; if(b > e) bad("function ends before it begins"); u32 h = x.m.r32(u);
        t.n(b).n(e).n(u).n(h & 7).n(h >> 3 & 31).n(h >> 8 & 255).n(h >> 16 & 255).n(h >> 24 & 15).n(h >> 28).c("\n"); endless(steps); }
    return t.s;
}
std::string libExc(const pe_base& p) { W t; for(const exception_entry& e : get_exception_directory_data(p)) t.n(e.get_begin_address()).n(e.get_end_address()).n(e.get_unwind_info_address()).n(e.get_unwind_info_version()).n(e.get_flags()).n(e.get_size_of_prolog()).n(e.get_number_of_unwind_slots()).n(e.get_frame_pointer_register_number()).n(e.get_scaled_rsp_offset()).c("\n"); return t.s; }
std::string refNet(const Ref& x) { if(!x.rva) bad("no directory"); W t; u64 a = x.rva; x.m.at(a, 72); t.n(x.m.r16(a + 4)).n(x.m.r16(a + 6)); for(int i = 0; i < 16; ++i) t.n(x.m.r32(a + 8 + 4 * i)); return t.s; }
std::string libNet(const pe_base& p) { W t; const basic_dotnet_info i = get_basic_dotnet_info(p); t.n(i.get_major_runtime_version()).n(i.get_minor_runtime_version()).n(i.get_rva_of_metadata()).n(i.get_size_of_metadata()).n(i.get_flags()).n(i.get_entry_point_rva_or_token()).n(i.get_rva_of_resources()).n(i.get_size_of_resources()).n(i.get_rva_of_strong_name_signature()).n(i.get_size_of_strong_name_signature()).n(i.get_rva_of_code_manager_table()).n(i.get_size_of_code_manager_table()).n(i.get_rva_of_vtable_fixups()).n(i.get_size_of_vtable_fixups()).n(i.get_rva_of_export_address_table_jumps()).n(i.get_size_of_export_address_table_jumps()).n(i.get_rva_of_managed_native_header()).n(i.get_size_of_managed_native_header()); return t.s; }
struct Reader { const char *name, *read, *refused, *unexplained; int dir; int kind; std::string (*ref)(const Ref&); std::string (*lib)(const pe_base&); };
const Reader R[] = {
    { "imports", "imports-read", "imports-refused", "imports-refused-though-decodable", D_IMPORT, 0, refImports, libImports }, { "exports", "exports-read", "exports-refused", "exports-refused-though-decodable", D_EXPORT, 1, refExports, libExports }, { "relocations", "relocations-read", "relocations-refused", "relocations-refused-though-decodable", D_RELOC, 2, refRelocs, libRelocs }, { "tls", "tls-read", "tls-refused", "tls-refused-though-decodable", D_TLS, 3, refTls, libTls }, { "load-configuration", "load-configuration-read", "load-configuration-refused", "load-configuration-refused-though-decodable", D_CONFIG, 4, refConfig, libConfig },
    { "bound-imports", "bound-imports-read", "bound-imports-refused", "bound-imports-refused-though-decodable", D_BOUND, 5, refBound, libBound }, { "resources", "resources-read", "resources-refused", "resources-refused-though-decodable", D_RESOURCE, 6, refRes, libRes }, { "debug", "debug-read", "debug-refused", "debug-refused-though-decodable", D_DEBUG, -1, refDebug, libDebug }, { "exceptions", "exceptions-read", "exceptions-refused", "exceptions-refused-though-decodable", D_EXCEPTION, -2, refExc, libExc }, { "dotnet", "dotnet-read", "dotnet-refused", "dotnet-refused-though-decodable", D_COM, -3, refNet, libNet } };

// ---- planting and damaging
struct Byte { int sec; u32 off; bool operator<(const Byte& o) const { return sec != o.sec ? sec < o.sec : off < o.off; } };    // sec -1: header area
char* byteAt(Img& im, Byte b, u32 n) { Bytes& d = b.sec < 0 ? im.hdrtail : im.secs[b.sec].data; return static_cast<u64>(b.off) + n <= d.size() ? &d[b.off] : nullptr; }
u32 rvaOf(const Img& im, Byte b) { return b.sec < 0 ? im.sectabEnd() + b.off : im.secs[b.sec].va + b.off; }
void plantOther(Rng& r, Img& im, int what) {
    saneBase(im, r); Arena a(im, r); if(r.chance(20)) a.withHeaders(); Bytes d;
    if(what == -1) { u64 n = 1 + r.below(4); std::vector<Bytes> recs;
        for(u64 i = 0; i < n; ++i) { u64 k = r.below(4); Bytes b = k == 0 ? "RSDS" + r.bytes(20) + r.ident(1, 30) + Bytes(1, '\0') : k == 1 ? "NB10" + r.bytes(12) + r.ident(1, 30) + Bytes(1, '\0') : k == 2 ? "NB09" + r.bytes(8) : r.bytes(1 + r.below(40));
            u32 rva = a.place(b, 1); const RSec* s = im.secAt(rva); put32(d, r.u32v()); put32(d, r.u32v()); put16(d, r.u32v()); put16(d, r.u32v()); put32(d, k < 3 ? 2 : r.below(20)); put32(d, b.size()); put32(d, rva); put32(d, s ? down(s->rawptr, im.h[FA]) + rva - s->va : rva);
            if(r.chance(15)) { size_t at = d.size() - 28; Bytes e = d.substr(at); wrn(e, 16, r.below(b.size() + 1), 4); if(r.chance(50)) d += e; else d.insert(at, e); count("entries-sharing-data"); } } // the same place with less data
        im.dir[D_DEBUG][1] = static_cast<u32>(d.size()); im.dir[D_DEBUG][0] = a.place(d, 4);
    } else if(what == -2) { u64 n = 1 + r.below(10); for(u64 i = 0; i < n; ++i) { put32(d, 0x1000 + 16 * i); put32(d, 0x1000 + 16 * i + r.below(16)); put32(d, a.place(r.bytes(4), 4)); } im.dir[D_EXCEPTION][1] = static_cast<u32>(d.size()); if(r.chance(50)) d += Bytes(12, '\0'); im.dir[D_EXCEPTION][0] = a.place(d, 4); }
    else { d = r.bytes(72); im.dir[D_COM][0] = a.place(d, 4); im.dir[D_COM][1] = 72; }
}
u64 damaged(Rng& r, Img& im, u64 old, int w, u64 rva, const std::vector<Byte>& fields) {
    u64 mask = w == 8 ? ~0ull : (1ull << (8 * w)) - 1; auto place = [&]() -> u64 {
        u64 a; switch(r.below(5)) { case 0: a = im.secs.empty() ? im.h[SIZEHDR] : [&] { const RSec& s = r.pick(im.secs); u64 e = s.va + (r.chance(50) ? s.span(static_cast<u32>(im.h[SA])) : s.data.size()); return e; }(); a -= r.below(12); break;
            case 1: a = im.h[SIZEIMG] - r.below(20); break; case 2: a = fields.empty() ? rva : rvaOf(im, r.pick(fields)); break; case 3: a = im.secs.empty() ? 0 : r.pick(im.secs).va; break; default: a = r.below(im.h[SIZEIMG] + 64); }
        return a; };
    switch(r.below(12)) {
    case 0: return (old + 1 + r.below(4)) & mask; case 1: return (old - 1 - r.below(4)) & mask; case 2: return (old + r.below(80) - 40) & mask; case 3: return (old * 2) & mask; case 4: return 0; case 5: return mask - r.below(r.chance(50) ? 1 : 16);
    case 6: return old ^ 1ull << r.below(8 * w); case 7: return (old ^ 1ull << (8 * w - 1 - r.below(std::min(8 * w, 3)))) & mask; case 8: return (old & 0xFFFFFFFF) > im.h[SIZEIMG] ? (im.h[IMGBASE] + place()) & mask : place() & mask;
    case 9: return place() & mask; case 10: return w == 8 ? old | r.next() << (32 + r.below(31)) : (im.h[IMGBASE] + place()) & mask; default: return r.chance(50) ? r.below(64) : r.edge32() & mask;
    }
}
void damage(Rng& r, Img& im, int dir, const std::vector<Byte>& fields) {
    for(u64 n = r.chance(70) ? 1 : 1 + r.below(4); n; --n) {
        u64 k = r.below(20);
        if(k < 3 || fields.empty()) { // the directory's own entry
            int j = r.chance(50); u32 v = static_cast<u32>(damaged(r, im, im.dir[dir][j], 4, im.dir[dir][0], fields)); im.dir[dir][j] = v; continue; }
        Byte b = r.pick(fields); int w = r.chance(55) ? 4 : r.chance(50) ? 2 : im.pe64 && r.chance(70) ? 8 : 1;
        if(r.chance(40)) { // near the beginning of a structure: the first bytes of a run of planted bytes
            for(int s = 0; s < 200 && b.off; ++s) { Byte c = b; --c.off; if(!std::binary_search(fields.begin(), fields.end(), c)) break; b = c; }
            b.off += static_cast<u32>(w * r.below(8)); }
        if(r.chance(85)) b.off -= rvaOf(im, b) % w > b.off ? 0 : rvaOf(im, b) % w;
        char* p = byteAt(im, b, w); if(!p) continue; u64 old = 0; memcpy(&old, p, w);
        if(k == 3) { Bytes& d = b.sec < 0 ? im.hdrtail : im.secs[b.sec].data; for(size_t i = b.off; i < d.size(); ++i) if(!d[i]) d[i] = 'x'; count("terminators-removed"); continue; }   // nothing ends any more
        if(k == 4) { Byte o = r.pick(fields); char* q = byteAt(im, o, w); if(q) memmove(p, q, w); continue; }
        u64 v = damaged(r, im, old, w, rvaOf(im, b), fields); memcpy(p, &v, w);
    }
}
}
void run_case(Rng& r, u64 idx) {
    const Reader& rd = R[idx % (sizeof R / sizeof *R)]; int size = r.chance(70) ? 0 : 1;
    GenOpt o; o.minSecs = 1; o.maxSecs = 4; o.maxSecData = 3000; o.fullDirs = true; o.odd = r.chance(30); Img im = genImg(r, o); Img was = im;
    if(rd.kind >= 0) { auto k = makeKind(rd.kind); planted(r, im, *k, size, r.chance(20)); } else plantOther(r, im, rd.kind);
    std::vector<Byte> fields; auto diff = [&](const Bytes& a, const Bytes& b, int s) { for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) fields.push_back(Byte{s, static_cast<u32>(i)}); };
    diff(im.hdrtail, was.hdrtail, -1); for(size_t i = 0; i < im.secs.size(); ++i) diff(im.secs[i].data, was.secs[i].data, static_cast<int>(i));
    if(fields.size() > 6000) throw CaseSkip();
    Bytes before = im.file(); if(!r.chance(3)) damage(r, im, rd.dir, fields); if(r.chance(20)) trimZeros(im, r);
    Bytes f = im.file(); bool dump = r.chance(8) && dumpable(im); Bytes src = dump ? dumpImage(im, r) : f; note_input(src);
    Parsed q = parse(f, false); if(!q.ok()) throw CaseSkip(); Mem m(mapImage(f, q)); Ref x = { m, im.pe64, im.h[IMGBASE], im.dir[rd.dir][0], im.dir[rd.dir][1], src, im };
    std::string want, why, got, refusal; bool stored = true, worked = true;
    try { want = rd.ref(x); } catch(const Bad& b) { stored = false; why = b.why; }
    try { pe_base p = openPe(src, dump); if(r.chance(10)) { pe_base z(p); p = z; }
        try { got = rd.lib(p); } catch(const pe_exception& e) { worked = false; refusal = e.what(); } }
    catch(const pe_exception& e) { count("not-opened"); throw CaseSkip(); }
    if(f != before) nontrivial(fnv(f));
    if(!worked) { count(stored ? rd.unexplained : rd.refused); return; }
    CHECK(stored, "accepted-damaged", "%s%s: the reader returned %s although %s", rd.name, dump ? " (memory dump)" : "", show(got).c_str(), why.c_str());
    bool same = rd.kind == -1 ? sameDebug(got, want) : got == want;
    CHECK(same, "not-what-is-stored", "%s%s: %s", rd.name, dump ? " (memory dump)" : "", diffAt(got, want).c_str());
    count(rd.read); if(idx < 100) sample(strf("%s: %s", rd.name, show(got).c_str()));
}
