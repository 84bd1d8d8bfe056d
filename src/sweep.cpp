#include "sweep.h"
#include "pe_lib/resource_cursor_icon_writer.h"
#include "pe_lib/resource_bitmap_writer.h"
#include "pe_lib/resource_version_info_writer.h"
#include <algorithm>

namespace {
struct T { std::string s; T& n(u64 v) { s += strf("%llx,", static_cast<unsigned long long>(v)); return *this; } T& t(const std::string& v) { s += strf("%zu:", v.size()); s += v; return *this; } T& w(const std::wstring& v) { s += strf("%zu:", v.size()); for(wchar_t c : v) s += strf("%x ", static_cast<unsigned>(c)); return *this; } T& nl() { s += '\n'; return *this; } };
template<class F> void ob(Obs& o, const std::string& name, F f) {
    T t;
    try { f(t); }
    catch(const pe_exception& e) { t.s = strf("refused:%d:", static_cast<int>(e.get_id())) + e.what(); }
    catch(const std::bad_alloc&) { t.s = "refused:bad_alloc"; }
    catch(const std::exception& e) { t.s = std::string("refused:other:") + e.what(); }
    o.push_back(std::make_pair(name, t.s));
}
void tree(T& t, const resource_directory& d, int depth) {
    t.n(d.get_characteristics()).n(d.get_timestamp()).n(d.get_major_version()).n(d.get_minor_version()).n(d.get_number_of_named_entries()).n(d.get_number_of_id_entries()).n(d.get_entry_list().size());
    for(const auto& e : d.get_entry_list()) { if(e.is_named()) t.w(e.get_name()); else t.n(e.get_id());
        if(e.includes_data()) { t.n(e.get_data_entry().get_codepage()); const std::string& b = e.get_data_entry().get_data(); t.n(b.size()).n(fnv(b)); } else { const resource_directory* sub = nullptr; try { sub = &e.get_resource_directory(); } catch(const pe_exception&) {} if(sub) { t.s += '{'; tree(t, *sub, depth + 1); t.s += '}'; } else t.s += "empty"; } }
    t.nl();
}
void debugRec(T& t, const debug_info& d) {
    t.n(d.get_characteristics()).n(d.get_time_stamp()).n(d.get_major_version()).n(d.get_minor_version()).n(d.get_type_raw()).n(d.get_type()).n(d.get_size_of_data()).n(d.get_rva_of_raw_data()).n(d.get_pointer_to_raw_data()).n(d.get_advanced_info_type());
    switch(d.get_advanced_info_type()) {
    case debug_info::advanced_info_pdb_7_0: { const pdb_7_0_info i = d.get_advanced_debug_info<pdb_7_0_info>(); pe_win::guid g = i.get_guid(); t.n(i.get_age()).t(i.get_pdb_file_name()).t(Bytes(reinterpret_cast<char*>(&g), 16)); break; }
    case debug_info::advanced_info_pdb_2_0: { const pdb_2_0_info i = d.get_advanced_debug_info<pdb_2_0_info>(); t.n(i.get_age()).n(i.get_signature()).t(i.get_pdb_file_name()); break; }
    case debug_info::advanced_info_misc: { const misc_debug_info i = d.get_advanced_debug_info<misc_debug_info>(); t.n(i.get_data_type()).n(i.is_unicode()).t(i.get_data_ansi()).w(i.get_data_unicode()); break; }
    case debug_info::advanced_info_coff: { const coff_debug_info i = d.get_advanced_debug_info<coff_debug_info>(); t.n(i.get_number_of_symbols()).n(i.get_lva_to_first_symbol()).n(i.get_number_of_line_numbers()).n(i.get_lva_to_first_line_number()).n(i.get_rva_to_first_byte_of_code()).n(i.get_rva_to_last_byte_of_code()).n(i.get_rva_to_first_byte_of_data()).n(i.get_rva_to_last_byte_of_data()); for(const auto& s : i.get_symbols()) t.n(s.get_index()).n(s.get_storage_class()).n(s.get_section_number()).n(s.get_rva()).n(s.get_type()).n(s.is_file()).t(s.get_symbol()); break; }
    default: break; }
}
}
std::string observeDebugRec(const debug_info& d) { T t; debugRec(t, d); return t.s; }
std::string observeTree(const resource_directory& d) { T t; tree(t, d, 0); return t.s; }
Obs observeHeaders(const pe_base& p) {
    Obs o;
    ob(o, "headers", [&](T& t) { t.n(p.get_pe_type()).t(Bytes(reinterpret_cast<const char*>(&p.get_dos_header()), 64)).t(Bytes(p.get_nt_headers_ptr(), p.get_sizeof_nt_header())).t(p.get_stub_overlay()).t(p.get_full_headers_data()).n(p.has_overlay()); });
    ob(o, "sections", [&](T& t) { for(const section& s : p.get_image_sections()) { const auto& h = s.get_raw_header(); t.t(Bytes(reinterpret_cast<const char*>(&h), sizeof h)).t(s.get_name()).n(s.get_raw_data().size()).n(fnv(s.get_raw_data())).nl(); } });
    ob(o, "debug data", [&](T& t) { for(const auto& d : p.get_raw_debug_data_list()) t.n(d.first).n(d.second.size()).n(fnv(d.second)); });
    ob(o, "directories", [&](T& t) { for(u32 i = 0; i < 17; ++i) { t.n(p.directory_exists(i)); if(p.directory_exists(i)) t.n(p.get_directory_rva(i)).n(p.get_directory_size(i)); } });
    return o;
}
Obs observe(const pe_base& p) {
    Obs o = observeHeaders(p);
    ob(o, "imports", [&](T& t) { for(const auto& l : get_imported_functions(p)) { t.t(l.get_name()).n(l.get_rva_to_iat()).n(l.get_rva_to_original_iat()).n(l.get_timestamp()); for(const auto& f : l.get_imported_functions()) t.n(f.has_name()).t(f.get_name()).n(f.get_hint()).n(f.get_ordinal()).n(f.get_iat_va()); t.nl(); } });
    ob(o, "exports", [&](T& t) { export_info i; exported_functions_list l = get_exported_functions(p, i);
        t.n(i.get_characteristics()).n(i.get_timestamp()).n(i.get_major_version()).n(i.get_minor_version()).t(i.get_name()).n(i.get_ordinal_base()).n(i.get_number_of_functions()).n(i.get_number_of_names()).n(i.get_rva_of_functions()).n(i.get_rva_of_names()).n(i.get_rva_of_name_ordinals());
        for(const auto& f : l) t.n(f.get_ordinal()).n(f.get_rva()).n(f.has_name()).t(f.get_name()).n(f.get_name_ordinal()).n(f.is_forwarded()).t(f.get_forwarded_name());
        if(!l.empty()) { auto q = get_export_ordinal_limits(l); t.n(q.first).n(q.second).n(exported_name_exists(l[0].get_name(), l)).n(exported_ordinal_exists(l.back().get_ordinal(), l)); } });
    for(int abs = 0; abs < 2; ++abs) ob(o, abs ? "all relocations" : "relocations", [&](T& t) { for(const auto& x : get_relocations(p, abs != 0)) { t.n(x.get_rva()); for(const auto& e : x.get_relocations()) t.n(e.get_item()); t.nl(); } });
    ob(o, "tls", [&](T& t) { const tls_info i = get_tls_info(p); t.n(i.get_raw_data_start_rva()).n(i.get_raw_data_end_rva()).n(i.get_index_rva()).n(i.get_callbacks_rva()).n(i.get_size_of_zero_fill()).n(i.get_characteristics()).t(i.get_raw_data()); for(u32 c : i.get_tls_callbacks()) t.n(c); });
    ob(o, "load configuration", [&](T& t) { const image_config_info i = get_image_config(p); t.n(i.get_time_stamp()).n(i.get_major_version()).n(i.get_minor_version()).n(i.get_global_flags_clear()).n(i.get_global_flags_set()).n(i.get_critical_section_default_timeout()).n(i.get_decommit_free_block_threshold()).n(i.get_decommit_total_free_threshold()).n(i.get_lock_prefix_table_va()).n(i.get_max_allocation_size()).n(i.get_virtual_memory_threshold()).n(i.get_process_affinity_mask()).n(i.get_process_heap_flags()).n(i.get_service_pack_version()).n(i.get_edit_list_va()).n(i.get_security_cookie_va()).n(i.get_se_handler_table_va()).n(i.get_se_handler_count()); for(u32 x : i.get_se_handler_rvas()) t.n(x); t.nl(); for(u32 x : i.get_lock_prefix_rvas()) t.n(x); });
    ob(o, "bound imports", [&](T& t) { for(const auto& b : get_bound_import_module_list(p)) { t.t(b.get_module_name()).n(b.get_timestamp()).n(b.get_module_ref_count()); for(const auto& x : b.get_module_ref_list()) t.t(x.get_module_name()).n(x.get_timestamp()); t.nl(); } });
    Obs typed; ob(o, "resources", [&](T& t) { const resource_directory d = get_resources(p); tree(t, d, 0); typed = observeTyped(d); });
    for(auto& x : typed) o.push_back(std::make_pair("resource " + x.first, x.second));
    ob(o, "debug", [&](T& t) { for(const auto& d : get_debug_information(p)) { debugRec(t, d); t.nl(); } });
    ob(o, "exceptions", [&](T& t) { for(const auto& e : get_exception_directory_data(p)) t.n(e.get_begin_address()).n(e.get_end_address()).n(e.get_unwind_info_address()).n(e.get_unwind_info_version()).n(e.get_flags()).n(e.get_size_of_prolog()).n(e.get_number_of_unwind_slots()).n(e.get_frame_pointer_register_number()).n(e.get_scaled_rsp_offset()); });
    ob(o, ".NET", [&](T& t) { const basic_dotnet_info i = get_basic_dotnet_info(p); t.n(i.get_major_runtime_version()).n(i.get_minor_runtime_version()).n(i.get_flags()).n(i.get_rva_of_metadata()).n(i.get_size_of_metadata()).n(i.get_entry_point_rva_or_token()).n(i.get_rva_of_resources()).n(i.get_size_of_resources()).n(i.get_rva_of_strong_name_signature()).n(i.get_size_of_strong_name_signature()).n(i.get_rva_of_code_manager_table()).n(i.get_size_of_code_manager_table()).n(i.get_rva_of_vtable_fixups()).n(i.get_size_of_vtable_fixups()).n(i.get_rva_of_export_address_table_jumps()).n(i.get_size_of_export_address_table_jumps()).n(i.get_rva_of_managed_native_header()).n(i.get_size_of_managed_native_header()); });
    ob(o, "rich data", [&](T& t) { for(const auto& x : get_rich_data(p)) t.n(x.get_number()).n(x.get_version()).n(x.get_times()); });
    ob(o, "entropy", [&](T& t) { double e = entropy_calculator::calculate_entropy(p); t.n(static_cast<u64>(e * 1e9)); for(const section& s : p.get_image_sections()) if(!s.get_raw_data().empty()) t.n(static_cast<u64>(entropy_calculator::calculate_entropy(s) * 1e9)); });
    return o;
}
Obs observeTyped(const resource_directory& root) {
    Obs o; pe_resource_viewer v(root); typedef pe_resource_viewer V;
    ob(o, "types", [&](T& t) { for(u32 x : v.list_resource_types()) { t.n(x); if(x > 31) continue; V::resource_type ty = static_cast<V::resource_type>(x); t.n(v.resource_exists(ty)).n(v.get_resource_count(ty)); for(const auto& s : v.list_resource_names(ty)) { t.w(s); for(u32 l : v.list_resource_languages(ty, s)) { t.n(l); t.n(fnv(v.get_resource_data_by_name(l, ty, s).get_data())); } } for(u32 i : v.list_resource_ids(ty)) { t.n(i); for(u32 l : v.list_resource_languages(ty, i)) { t.n(l); t.n(v.get_resource_data_by_id(l, ty, i).get_codepage()); } } } });
    ob(o, "named types", [&](T& t) { for(const auto& e : root.get_entry_list()) if(e.is_named()) { t.w(e.get_name()).n(v.resource_exists(e.get_name())).n(v.get_resource_count(e.get_name())); for(const auto& s : v.list_resource_names(e.get_name())) { t.w(s).n(v.get_language_count(e.get_name(), s)); t.n(v.get_resource_data_by_name(e.get_name(), s).get_data().size()); } for(u32 i : v.list_resource_ids(e.get_name())) { t.n(i).n(v.get_language_count(e.get_name(), i)); t.n(v.get_resource_data_by_id(e.get_name(), i).get_data().size()); } } });
    auto each = [&](V::resource_type ty, const char* what, int cap, const std::function<void(Obs&, const std::string&, bool, const std::wstring&, u32, u32, bool)>& f) {
        std::vector<u32> ids; std::vector<std::wstring> names; bool ok = true;
        try { ids = v.list_resource_ids(ty); names = v.list_resource_names(ty); } catch(const std::exception&) { ok = false; }
        if(!ok || (ids.empty() && names.empty())) { f(o, std::string(what) + " absent", false, L"", 1, 0x409, true); return; }
        int left = cap; std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
        for(u32 id : ids) { std::vector<u32> ls; try { ls = v.list_resource_languages(ty, id); } catch(const std::exception&) {} if(left-- <= 0) break; f(o, strf("%s %u", what, id), false, L"", id, 0, false); for(u32 l : ls) { if(left-- <= 0) break; f(o, strf("%s %u/%u", what, id, l), false, L"", id, l, true); } }
        left = cap; for(const auto& n : names) { std::vector<u32> ls; try { ls = v.list_resource_languages(ty, n); } catch(const std::exception&) {} if(left-- <= 0) break; f(o, strf("%s named", what), true, n, 0, 0, false); for(u32 l : ls) { if(left-- <= 0) break; f(o, strf("%s named/%u", what, l), true, n, 0, l, true); } }
    };
    each(V::resource_icon, "icon", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring&, u32 id, u32 l, bool bl) { if(named) return; ob(q, nm, [&](T& t) { resource_cursor_icon_reader x(v); std::string b = bl ? x.get_single_icon_by_id_lang(l, id) : x.get_single_icon_by_id(id); t.n(b.size()).n(fnv(b)); }); });
    each(V::resource_cursor, "cursor", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring&, u32 id, u32 l, bool bl) { if(named) return; ob(q, nm, [&](T& t) { resource_cursor_icon_reader x(v); std::string b = bl ? x.get_single_cursor_by_id_lang(l, id) : x.get_single_cursor_by_id(id); t.n(b.size()).n(fnv(b)); }); });
    each(V::resource_icon_group, "icon group", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring& n, u32 id, u32 l, bool bl) { ob(q, nm, [&](T& t) { resource_cursor_icon_reader x(v); std::string b = named ? (bl ? x.get_icon_by_name(l, n) : x.get_icon_by_name(n)) : bl ? x.get_icon_by_id_lang(l, id) : x.get_icon_by_id(id); t.n(b.size()).n(fnv(b)); }); });
    each(V::resource_cursor_group, "cursor group", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring& n, u32 id, u32 l, bool bl) { ob(q, nm, [&](T& t) { resource_cursor_icon_reader x(v); std::string b = named ? (bl ? x.get_cursor_by_name(l, n) : x.get_cursor_by_name(n)) : bl ? x.get_cursor_by_id_lang(l, id) : x.get_cursor_by_id(id); t.n(b.size()).n(fnv(b)); }); });
    each(V::resource_bitmap, "bitmap", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring& n, u32 id, u32 l, bool bl) { ob(q, nm, [&](T& t) { resource_bitmap_reader x(v); std::string b = named ? (bl ? x.get_bitmap_by_name(l, n) : x.get_bitmap_by_name(n)) : bl ? x.get_bitmap_by_id_lang(l, id) : x.get_bitmap_by_id(id); t.n(b.size()).n(fnv(b)); }); });
    each(V::resource_string, "strings", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring&, u32 id, u32 l, bool bl) { if(named) return; ob(q, nm, [&](T& t) { resource_string_table_reader x(v); resource_string_list s = bl ? x.get_string_table_by_id_lang(l, id) : x.get_string_table_by_id(id); for(auto& y : s) { t.n(y.first).w(y.second); if(bl) t.w(x.get_string_by_id_lang(l, y.first)); } }); });
    each(V::resource_message_table, "messages", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring&, u32 id, u32 l, bool bl) { if(named) return; ob(q, nm, [&](T& t) { resource_message_list_reader x(v); resource_message_list s = bl ? x.get_message_table_by_id_lang(l, id) : x.get_message_table_by_id(id); for(auto& y : s) t.n(y.first).n(y.second.is_unicode()).t(y.second.get_ansi_string()).w(y.second.get_unicode_string()); }); });
    each(V::resource_version, "version", 12, [&](Obs& q, const std::string& nm, bool named, const std::wstring&, u32, u32 l, bool bl) { if(named) return; ob(q, nm, [&](T& t) { resource_version_info_reader x(v); lang_string_values_map s; translation_values_map m; file_version_info i = bl ? x.get_version_info_by_lang(s, m, l) : x.get_version_info(s, m);
        t.n(i.get_file_flags()).n(i.get_file_version_ms()).n(i.get_file_version_ls()).n(i.get_product_version_ms()).n(i.get_product_version_ls()).n(i.get_file_os_raw()).n(i.get_file_os()).n(i.get_file_type_raw()).n(i.get_file_type()).n(i.get_file_subtype()).n(i.get_file_date_ms()).n(i.get_file_date_ls()).t(i.get_file_version_string<char>()).t(i.get_product_version_string<char>());
        for(auto& a : s) { t.w(a.first); for(auto& b : a.second) t.w(b.first).w(b.second); } for(auto& a : m) t.n(a.first).n(a.second);
        version_info_viewer vw(s, m); t.w(vw.get_company_name()).w(vw.get_product_version()); for(auto& z : vw.get_translation_list()) t.w(z); }); });
    return o;
}
std::string diffObs(const Obs& a, const Obs& b) {
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i].first == b[i].first ? a[i].first + ": " + diffAt(a[i].second, b[i].second) : a[i].first + " instead of " + b[i].first;
    return a.size() == b.size() ? "" : "different number of observations";
}
u64 hashObs(const Obs& o) { u64 h = 1; for(const auto& x : o) h = fnv(x.second, fnv(x.first, h)); return h; }
u64 workedObs(const Obs& o) { u64 n = 0; for(const auto& x : o) n += !x.second.empty() && x.second.compare(0, 8, "refused:") != 0; return n; }

thread_local u64 g_refusals = 0;
template<class F> static void quiet(F f) { try { f(); g_refusals = g_refusals * 33 + 1; } catch(const std::exception& e) { g_refusals = fnv(e.what(), strlen(e.what()), g_refusals); } }
static thread_local u64 g_sink;
static void use(const char* p, u64 n) { u64 h = 0; for(u64 i = 0; i < n; ++i) h = h * 31 + static_cast<u8>(p[i]); g_sink += h; }
void touch(const pe_base& p, Rng& r) {
    std::vector<u32> pts; for(const section& s : p.get_image_sections()) { pts.push_back(s.get_virtual_address()); pts.push_back(s.get_virtual_address() + s.get_virtual_size()); pts.push_back(s.get_virtual_address() + static_cast<u32>(s.get_raw_data().size())); pts.push_back(s.get_pointer_to_raw_data()); pts.push_back(s.get_pointer_to_raw_data() + s.get_size_of_raw_data()); }
    pts.push_back(p.get_size_of_image()); pts.push_back(static_cast<u32>(p.get_full_headers_data().size())); pts.push_back(p.get_ep());
    auto rva = [&] { return r.chance(70) ? r.pick(pts) + static_cast<u32>(r.below(9)) - 4 : r.edge32(); };
    u64 base = p.get_pe_type() == pe_type_64 ? p.get_image_base_64() : p.get_image_base_32();
    for(int k = 0; k < 12; ++k) {
        u32 a = rva(), b = rva(); bool h = r.chance(50); section_data_type dt = r.chance(50) ? section_data_raw : section_data_virtual; u64 va = r.chance(70) ? base + a : r.edge64();
        quiet([&] { p.va_to_rva(va, h); }); quiet([&] { p.va_to_rva(static_cast<u32>(va), h); }); quiet([&] { p.rva_to_va_32(a); }); quiet([&] { p.rva_to_va_64(a); });
        quiet([&] { p.rva_to_file_offset(a); }); quiet([&] { p.file_offset_to_rva(a); }); quiet([&] { p.section_from_rva(a).get_name(); }); quiet([&] { p.section_from_va(va).get_name(); }); quiet([&] { p.section_from_file_offset(a).get_name(); }); quiet([&] { p.section_from_directory(static_cast<u32>(r.below(18))).get_name(); });
        quiet([&] { u32 t = p.section_data_length_from_rva(a, dt, h); u32 n = p.section_data_length_from_rva(a, a, dt, h); CHECK(n <= t, "length", "remaining length %u of %u", n, t); const char* d = p.section_data_from_rva(a, dt, h); use(d, n); count("data-accesses"); });
        quiet([&] { p.section_data_length_from_va(va, dt, h); u32 n = p.section_data_length_from_va(va, va, dt, h); const char* d = p.section_data_from_va(va, dt, h); use(d, n); count("data-accesses"); });
        quiet([&] { p.section_data_length_from_rva(a, b, dt, h); const char* d = p.section_data_from_rva(a, dt, h); u32 m = p.section_data_length_from_rva(a, a, dt, h); use(d, m); });
        quiet([&] { const section& s = p.section_from_rva(a); u32 n = p.section_data_length_from_rva(s, b, dt); const char* d = p.section_data_from_rva(s, b, dt); use(d, n); });
        quiet([&] { g_sink += p.section_data_from_rva<u64>(a, dt, h); }); quiet([&] { g_sink += p.section_data_from_va<u32>(va, dt, h); }); quiet([&] { const section& s = p.section_from_rva(a); g_sink += p.section_data_from_rva<u32>(s, b, dt); });
    }
    for(const section& s : p.get_image_sections()) quiet([&] { if(s.get_virtual_size() < (1u << 22)) { const std::string& v = s.get_virtual_data(p.get_section_alignment()); use(v.data(), v.size()); } s.get_aligned_raw_size(p.get_file_alignment()); s.get_aligned_virtual_size(p.get_section_alignment()); });
}

// ---- images with many directories
std::string richDebug(Rng& r, Img& im, Arena& a, std::vector<Region>& reg) {
    Bytes dir; u64 n = 1 + r.below(4);
    for(u64 i = 0; i < n; ++i) {
        Bytes d; u32 type = 2;
        switch(r.below(6)) {
        case 0: d = "RSDS" + r.bytes(20) + r.ident(1, 30) + Bytes(1, '\0'); break;
        case 1: d = "NB10" + r.bytes(12) + r.ident(4, 30) + Bytes(1, '\0'); break;
        case 2: d = "NB09" + r.bytes(10); break;
        case 3: { type = 4; Bytes t = r.chance(50) ? Bytes(r.ident(2, 20)) : Bytes("a\0b\0\0\0", 6); put32(d, 1); put32(d, 12 + t.size()); d += t[1] ? '\0' : '\1'; d += Bytes(3, '\0') + t; break; }
        default: { type = 1; u32 k = static_cast<u32>(1 + r.below(6)); u32 h[8] = {k, 32, 0, 0, 0x1000, 0x2000, 0x3000, 0x4000}; for(u32 x : h) put32(d, x); Bytes st(4, '\0'); for(u32 j = 0; j < k; ++j) { u32 q = static_cast<u32>(r.below(3)); if(q == 0) { put32(d, 0); put32(d, st.size()); st += r.ident(3, 20) + Bytes(1, '\0'); } else d += Bytes("name\0\0\0\0", 8); put32(d, r.u32v()); put16(d, 1); put16(d, 0x20); d += static_cast<char>(q == 1 ? 103 : q == 2 ? 3 : 2); d += static_cast<char>(q == 1 && j + 1 < k ? 1 : 0); } d += st; }
        }
        u32 rva = a.place(d, 1); reg.push_back(Region{rva, rva + d.size()}); const RSec* s = im.secAt(rva);
        put32(dir, r.chance(50) ? 0 : r.u32v()); put32(dir, r.u32v()); put32(dir, r.chance(50) ? 0 : r.u32v()); put32(dir, r.chance(90) ? type : static_cast<u32>(r.below(18))); put32(dir, d.size()); put32(dir, rva); put32(dir, s ? down(s->rawptr, im.h[FA]) + (rva - s->va) : rva);
    }
    im.dir[D_DEBUG][0] = a.place(dir, 4); im.dir[D_DEBUG][1] = static_cast<u32>(dir.size()); reg.push_back(Region{im.dir[D_DEBUG][0], im.dir[D_DEBUG][0] + dir.size()});
    return "";
}
Rich richImage(Rng& r) {
    Rich x; GenOpt o; o.minSecs = 1; o.maxSecs = 5; o.maxSecData = 6000; o.fullDirs = r.chance(90); o.odd = r.chance(40); x.im = genImg(r, o); Img& im = x.im;
    if(r.chance(30)) { im.hdrtail.resize(im.hdrtail.size() + r.below(600), '\0'); Rng r2(7); layout(im, r2, false); }
    saneBase(im, r); Ctx c; c.pe64 = im.pe64; c.base = im.h[IMGBASE]; for(const RSec& s : im.secs) c.targets.push_back(Region{s.va, s.va + static_cast<u64>(s.span(static_cast<u32>(im.h[SA])))});
    Arena a(im, r); if(r.chance(20)) a.withHeaders();
    for(int k = 0; k < KIND_COUNT; ++k) { if(!r.chance(60)) continue; auto d = makeKind(k); d->pe64 = c.pe64; d->base = c.base; if(im.ndirs() <= static_cast<u32>(d->dir)) continue; try { d->gen(r, c, r.chance(70) ? 0 : 1); d->plant(im, a, r); u32 rva = im.dir[d->dir][0]; if(rva) x.regions.push_back(Region{rva, rva + static_cast<u64>(std::min<u32>(std::max<u32>(im.dir[d->dir][1], 64), 4096))}); } catch(const CaseSkip&) { im.dir[d->dir][0] = im.dir[d->dir][1] = 0; } }
    if(im.ndirs() == 16) {
        try { if(r.chance(50)) richDebug(r, im, a, x.regions); } catch(const CaseSkip&) { im.dir[D_DEBUG][0] = 0; }
        try { if(r.chance(40)) { Bytes d; u64 n = 1 + r.below(5); for(u64 i = 0; i < n; ++i) { put32(d, 0x1000 + 16 * i); put32(d, 0x1010 + 16 * i); put32(d, a.place(r.bytes(8), 4)); } im.dir[D_EXCEPTION][0] = a.place(d, 4); im.dir[D_EXCEPTION][1] = static_cast<u32>(d.size()); x.regions.push_back(Region{im.dir[D_EXCEPTION][0], im.dir[D_EXCEPTION][0] + d.size()}); } } catch(const CaseSkip&) {}
        try { if(r.chance(30)) { im.dir[D_COM][0] = a.place(r.bytes(72), 4); im.dir[D_COM][1] = 72; } } catch(const CaseSkip&) {}
    }
    if(r.chance(30)) { u32 key = r.u32v(); Bytes b; put32(b, 0x536e6144 ^ key); for(int i = 0; i < 3; ++i) put32(b, key); for(u64 i = r.below(5); i; --i) put64(b, r.next()); b += "Rich"; put32(b, key); Bytes s = im.stub.substr(0, im.stub.size() & ~3u) + b; Rng r2(7); u32 oldEnd = im.sectabEnd(); im.stub = s; if(im.sectabEnd() + im.hdrtail.size() <= im.h[SIZEHDR]) {} else im.stub = s.substr(0, s.size() - b.size()); (void)oldEnd; }
    return x;
}
u32 interesting(Rng& r, const Bytes& f) {
    switch(r.below(8)) {
    case 0: return static_cast<u32>(r.below(16));
    case 1: return r.edge32();
    case 2: return static_cast<u32>(f.size() + r.below(9) - 4);
    case 3: return f.size() >= 4 ? rd32(f, r.below(f.size() - 3)) : 0;
    case 4: return 0x80000000u | static_cast<u32>(r.below(0x400));
    case 5: return static_cast<u32>(r.below(0x10000));
    case 6: return 0x1000 * static_cast<u32>(r.below(16)) + (r.chance(50) ? 0 : 0xFF0 + static_cast<u32>(r.below(16)));
    default: return r.chance(50) ? 0xFFFFFFFFu - static_cast<u32>(r.below(0x1000)) : 0x7FFFFFF0 + static_cast<u32>(r.below(32));
    }
}
Bytes mutateImage(Rng& r, const Bytes& f, const std::vector<Region>& regs) {
    Bytes b = f; if(b.size() < 128) return r.bytes(b.size());
    Parsed q = parse(f, false); u32 nt = q.lfanew; 
    auto off = [&](u64 rva) -> size_t { if(const RSec* s = q.im.secAt(rva)) return down(s->rawptr, q.im.h[FA] ? q.im.h[FA] : 1) + (rva - s->va); return rva; };
    auto val = [&](size_t o, int w) -> u64 { u64 v = rdn(b, o, w); switch(r.below(7)) { case 0: return v + 1; case 1: return v - 1; case 2: return v + r.below(64) - 32; case 3: return v * 2; case 4: return r.chance(50) ? 0 : ~0ull; default: return r.chance(80) ? interesting(r, b) : r.edge64(); } };
    u64 n = r.chance(60) ? 1 + r.below(3) : 1 + r.below(20);
    for(; n; --n) {
        int w = r.chance(60) ? 4 : r.chance(50) ? 2 : 1; size_t o = b.size();
        switch(r.below(12)) {
        case 0: case 1: case 2: case 3: case 4: if(regs.empty()) continue; { const Region& g = regs[r.below(regs.size())]; if(!g.size()) continue; o = off(g.lo + r.below(g.size())); if(r.chance(60)) o &= ~static_cast<size_t>(w - 1); } break;
        case 5: { int k = static_cast<int>(r.below(NHF)); bool p64 = q.im.pe64; int fo = p64 ? HFI[k].off64 : HFI[k].off32; w = p64 ? HFI[k].size64 : HFI[k].size32; if(!w) continue; o = nt + static_cast<u32>(fo); break; }
        case 6: case 7: o = nt + 24 + (q.im.pe64 ? 112 : 96) + 4 * r.below(32); w = 4; if(r.chance(40) && o + 4 <= b.size() && !regs.empty()) { const Region& g = regs[r.below(regs.size())]; wrn(b, o, g.lo + r.below(16), 4); continue; } break;
        case 8: if(!q.im.h[NSEC]) continue; o = q.sectab + 40 * r.below(std::min<u64>(q.im.h[NSEC], 96)) + 8 + 4 * r.below(4); w = 4; break;
        case 9: o = r.below(b.size()); break;
        case 10: { if(regs.size() < 1) continue; // copy a piece of a directory over another place: shared and self-referring structures
            const Region& g = regs[r.below(regs.size())]; const Region& h = regs[r.below(regs.size())]; size_t x = off(g.lo + r.below(g.size())), y = off(h.lo + r.below(h.size())), len = 4 * (1 + r.below(8)); if(x + len <= b.size() && y + len <= b.size()) { Bytes t = b.substr(x, len); b.replace(y, len, t); } continue; }
        default: if(r.chance(85)) continue; if(r.chance(70)) b.resize(std::max<size_t>(64, r.below(b.size()))); else b += r.bytes(r.below(64)); if(b.size() < 128) return b; continue;
        }
        if(o + static_cast<size_t>(w) > b.size()) continue;
        wrn(b, o, val(o, w), w);
    }
    return b;
}

// ---- typed resources
Bytes icoFile(Rng& r, bool cursor) {
    u32 n = static_cast<u32>(1 + r.below(4)); Bytes h, d; put16(h, 0); put16(h, cursor ? 2 : 1); put16(h, n); u32 at = 6 + 16 * n;
    for(u32 i = 0; i < n; ++i) { u32 w = static_cast<u32>(1 + r.below(64)); Bytes im; put32(im, 40); put32(im, w); put32(im, 2 * w); put16(im, 1); put16(im, 32); put32(im, 0); put32(im, 0); put32(im, 0); put32(im, 0); put32(im, 0); put32(im, 0); im += r.bytes(r.below(100)); h += static_cast<char>(w); h += static_cast<char>(w); h += '\0'; h += '\0'; put16(h, cursor ? r.below(64) : 1); put16(h, cursor ? r.below(64) : 32); put32(h, im.size()); put32(h, at + d.size()); d += im; }
    return h + d;
}
Bytes bmpFile(Rng& r) {
    static const u32 bc[] = {1, 4, 8, 24, 32}; u32 bits = bc[r.below(5)], used = bits <= 8 && r.chance(50) ? static_cast<u32>(1 + r.below(1u << bits)) : 0, pal = bits <= 8 ? (used ? used : 1u << bits) : 0;
    Bytes d; put32(d, 40); put32(d, 4); put32(d, 4); put16(d, 1); put16(d, bits); put32(d, 0); put32(d, 0); put32(d, 0); put32(d, 0); put32(d, used); put32(d, 0); d += r.bytes(4 * pal); u32 off = static_cast<u32>(14 + d.size()); d += r.bytes(4 * ((4 * bits + 31) / 32) * 4);
    Bytes h = "BM"; put32(h, 14 + d.size()); put32(h, 0); put32(h, off); return h + d;
}
Bytes stringTable(Rng& r) { Bytes b; for(int i = 0; i < 16; ++i) { std::u16string s = r.chance(40) ? std::u16string() : genName(r, 0, 12, false); put16(b, s.size()); b += Bytes(reinterpret_cast<const char*>(s.data()), 2 * s.size()); } return b; }
Bytes messageTable(Rng& r) {
    u32 nb = static_cast<u32>(1 + r.below(3)), at = 4 + 12 * nb, id = static_cast<u32>(r.below(10)); Bytes h, d; put32(h, nb);
    for(u32 i = 0; i < nb; ++i) { u32 k = static_cast<u32>(1 + r.below(4)); put32(h, id); put32(h, id + k - 1); put32(h, at + d.size()); for(u32 j = 0; j < k; ++j) { bool u = r.chance(50); Bytes t = u ? [&] { std::u16string s = genName(r, 1, 10, false); return Bytes(reinterpret_cast<const char*>(s.data()), 2 * s.size()); }() : Bytes(r.ident(1, 12)); t.resize(up(t.size() + (u ? 2 : 1), 4), '\0'); put16(d, 4 + t.size()); put16(d, u); d += t; } id += k + static_cast<u32>(r.below(5)); }
    return h + d;
}
resource_directory typedTree(Rng& r) {
    resource_directory root; pe_resource_manager m(root); typedef pe_resource_viewer V;
    u32 langs[2] = {0x409, 0x419};
    for(u64 k = 1 + r.below(3); k; --k) { resource_cursor_icon_writer w(m); u32 l = langs[r.below(2)]; if(r.chance(50)) w.add_icon(icoFile(r, false), static_cast<u32>(1 + r.below(3)), l, resource_cursor_icon_writer::icon_place_after_max_icon_id); else w.add_icon(icoFile(r, false), L"icon", l, resource_cursor_icon_writer::icon_place_free_ids); }
    for(u64 k = r.below(3); k; --k) { resource_cursor_icon_writer w(m); w.add_cursor(icoFile(r, true), static_cast<u32>(1 + r.below(3)), langs[r.below(2)]); }
    for(u64 k = r.below(3); k; --k) { resource_bitmap_writer w(m); if(r.chance(50)) w.add_bitmap(bmpFile(r), static_cast<u32>(1 + r.below(3)), langs[r.below(2)]); else w.add_bitmap(bmpFile(r), L"bmp", langs[r.below(2)]); }
    for(u64 k = r.below(3); k; --k) m.add_resource(stringTable(r), V::resource_string, static_cast<u32>(1 + r.below(3)), langs[r.below(2)]);
    for(u64 k = r.below(3); k; --k) m.add_resource(messageTable(r), V::resource_message_table, static_cast<u32>(1 + r.below(3)), langs[r.below(2)]);
    if(r.chance(60)) { resource_version_info_writer w(m); file_version_info i; i.set_file_version_ms(r.u32v()); if(r.chance(70)) { i.set_file_version_ls(r.u32v()); i.set_product_version_ms(r.u32v()); i.set_product_version_ls(r.u32v()); i.set_file_date_ms(r.u32v()); i.set_file_date_ls(r.u32v()); i.set_file_subtype(r.u32v()); } i.set_file_flags(r.u32v() & 63); lang_string_values_map s; translation_values_map t; version_info_editor e(s, t); for(u64 k = r.below(5); k; --k) e.set_property(wide(genName(r, 1, 10, false)), wide(genName(r, 0, 20, false)), r.chance(60) ? L"041904b0" : L"040904b0"); w.set_version_info(i, s, t, langs[r.below(2)]); }
    if(r.chance(30)) m.add_resource(r.bytes(r.below(50)), L"TYPE", L"name", 0);
    if(r.chance(30)) m.add_resource(r.bytes(r.below(50)), V::resource_rcdata, 5, 0x409);
    return root;
}

// ---- hostile resources
Bytes mutateBytes(Rng& r, const Bytes& f) {
    Bytes b = f; u64 n = r.chance(70) ? 1 + r.below(3) : 1 + r.below(12);
    for(; n; --n) {
        switch(r.below(10)) {
        case 0: if(b.size()) b.resize(r.below(b.size())); break;
        case 1: b += r.bytes(r.below(20)); break;
        case 2: if(b.size() > 8) { size_t a = r.below(b.size()), l = r.below(std::min<size_t>(b.size() - a, 64)); b.erase(a, l); } break;
        case 3: if(b.size() > 8) { size_t a = r.below(b.size()), c = r.below(b.size()), l = 1 + r.below(32); if(a + l <= b.size() && c + l <= b.size()) { Bytes t = b.substr(a, l); b.replace(c, l, t); } } break;
        default: { int w = r.chance(40) ? 4 : r.chance(60) ? 2 : 1; if(b.size() < static_cast<size_t>(w)) continue; size_t o = r.chance(50) ? r.below(std::min<size_t>(b.size() - w + 1, 64)) : r.below(b.size() - w + 1); if(r.chance(80)) o &= ~static_cast<size_t>(w - 1); u64 v = rdn(b, o, w); wrn(b, o, r.chance(50) ? v + r.below(9) - 4 : r.chance(50) ? interesting(r, b) : r.edge64(), w); }
        }
    }
    return b;
}
void mutateTree(Rng& r, resource_directory& d, int level) {
    for(resource_directory_entry& e : d.get_entry_list()) {
        if(e.includes_data()) { if(r.chance(60)) { resource_data_entry& x = e.get_data_entry(); x.set_data(r.chance(90) ? mutateBytes(r, x.get_data()) : r.bytes(r.below(120))); } }
        else if(level < 40) { try { mutateTree(r, e.get_resource_directory(), level + 1); } catch(const pe_exception&) {} }
        if(r.chance(3)) { Bytes b = r.bytes(r.below(40)); e.add_data_entry(resource_data_entry(b, r.u32v())); }
        if(r.chance(2)) { resource_directory sub; resource_directory_entry x; x.set_id(r.edge32()); Bytes b = r.bytes(r.below(40)); if(r.chance(50)) x.add_data_entry(resource_data_entry(b, 0)); sub.add_resource_directory_entry(x); e.add_resource_directory(sub); }
        if(r.chance(3)) { if(r.chance(50)) e.set_id(static_cast<u32>(r.below(30))); else e.set_name(wide(genName(r, 0, 6, false))); }
    }
    if(r.chance(4)) { resource_directory_entry x; x.set_id(static_cast<u32>(r.below(30))); d.add_resource_directory_entry(x); }
    if(r.chance(2)) d.clear_resource_directory_entry_list();
}
static u32 smallId(Rng& r) { return r.chance(85) ? static_cast<u32>(r.below(6)) : r.edge32(); }
static u32 lang(Rng& r) { static const u32 l[] = {0x409, 0x419, 0}; return r.chance(90) ? l[r.below(3)] : r.edge32(); }
static pe_resource_viewer::resource_type anyType(Rng& r) { static const u32 t[] = {1, 2, 3, 6, 10, 11, 12, 14, 16}; return static_cast<pe_resource_viewer::resource_type>(t[r.below(9)]); }
void editTyped(Rng& r, resource_directory& root, u64 n) {
    typedef pe_resource_viewer V; pe_resource_manager m(root);
    for(; n; --n) quiet([&] {
        bool named = r.chance(30); std::wstring nm = r.chance(50) ? L"icon" : r.chance(50) ? L"bmp" : wide(genName(r, 0, 4, r.chance(20))); u32 id = smallId(r), l = lang(r);
        count("edits-tried");
        switch(r.below(12)) {
        case 0: case 1: case 2: { Bytes f = icoFile(r, r.chance(10)); if(r.chance(60)) f = mutateBytes(r, f); auto md = static_cast<resource_cursor_icon_writer::icon_place_mode>(r.below(2)); resource_cursor_icon_writer w(m); if(named) w.add_icon(f, nm, l, md, r.u32v(), r.u32v()); else w.add_icon(f, id, l, md); break; }
        case 3: case 4: { Bytes f = icoFile(r, r.chance(90)); if(r.chance(60)) f = mutateBytes(r, f); auto md = static_cast<resource_cursor_icon_writer::icon_place_mode>(r.below(2)); resource_cursor_icon_writer w(m); if(named) w.add_cursor(f, nm, l, md, r.u32v(), r.u32v()); else w.add_cursor(f, id, l, md); break; }
        case 5: { Bytes f = bmpFile(r); if(r.chance(60)) f = mutateBytes(r, f); resource_bitmap_writer w(m); if(named) w.add_bitmap(f, nm, l); else w.add_bitmap(f, id, l, r.u32v(), r.u32v()); break; }
        case 6: { resource_cursor_icon_writer w(m); if(named) { if(r.chance(50)) w.remove_icon_group(nm, l); else w.remove_cursor_group(nm, l); } else { if(r.chance(50)) w.remove_icon_group(id, l); else w.remove_cursor_group(id, l); } break; }
        case 7: { resource_bitmap_writer w(m); if(named) w.remove_bitmap(nm, l); else w.remove_bitmap(id, l); break; }
        case 8: { resource_version_info_writer w(m); if(r.chance(20)) { w.remove_version_info(l); break; } lang_string_values_map s; translation_values_map t; file_version_info i; if(r.chance(60)) quiet([&] { V v(root); resource_version_info_reader x(v); i = x.get_version_info(s, t); });
            version_info_editor e(s, t); for(u64 k = r.below(6); k; --k) quiet([&] { std::wstring tr = r.chance(50) ? L"041904b0" : r.chance(50) ? std::wstring() : wide(genName(r, 0, 9, r.chance(20))); switch(r.below(6)) { case 0: e.add_translation(tr); break; case 1: e.add_translation(static_cast<u16>(r.next()), static_cast<u16>(r.next())); break; case 2: e.remove_translation(tr); break; case 3: e.set_company_name(wide(genName(r, 0, 30, true)), tr); break; default: e.set_property(wide(genName(r, 0, r.chance(3) ? 40000 : 10, r.chance(20))), wide(genName(r, 0, r.chance(3) ? 40000 : 20, r.chance(20))), tr); } });
            i.set_debug(r.chance(50)); w.set_version_info(i, s, t, l, r.u32v(), r.u32v()); break; }
        case 9: m.add_resource(r.chance(50) ? r.bytes(r.below(60)) : mutateBytes(r, r.chance(50) ? stringTable(r) : messageTable(r)), anyType(r), id, l); break;
        case 10: { V::resource_type t = anyType(r); switch(r.below(6)) { case 0: m.remove_resource_type(t); break; case 1: m.remove_resource(nm); break; case 2: m.remove_resource(t, id); break; case 3: m.remove_resource(t, nm); break; case 4: m.remove_resource(t, id, l); break; default: m.remove_resource(t, nm, l); } break; }
        default: switch(r.below(4)) { case 0: m.add_resource(r.bytes(r.below(60)), wide(genName(r, 0, 5, false)), nm, l); break; case 1: m.add_resource(r.bytes(r.below(60)), anyType(r), nm, l, 1, 2); break; case 2: m.add_resource(r.bytes(r.below(60)), wide(genName(r, 0, 5, false)), id, l); break; default: m.remove_resource(nm, id, l); }
        }
        count("edits-done");
    });
}

// ---- random editing
std::string randomEdit(Rng& r, pe_base& p) {
    section_list& l = p.get_image_sections(); size_t n = l.size(); size_t i = n ? (r.chance(60) ? n - 1 : r.below(n)) : 0; std::string t;
    auto done = [&](const char* c) { count(c); };
    try {
        switch(r.below(22)) {
        case 0: case 1: { section s; Bytes d = r.chance(20) ? Bytes() : r.bytes(1 + r.below(3000)); u32 vs = r.chance(40) ? 0 : static_cast<u32>(r.below(8000)), va = r.chance(20) ? static_cast<u32>(r.below(0x40000)) : 0; t = strf("add_section(%zu bytes, vsize %x, va %x)", d.size(), vs, va); s.set_raw_data(d); s.set_virtual_size(vs); s.set_virtual_address(va); s.set_name(r.ident(0, 10)); s.readable(true); p.add_section(s, r.chance(70)); done("add-section"); break; }
        case 2: { if(!n) break; u32 v = r.chance(15) ? 0 : static_cast<u32>(l[i].get_raw_data().size() + r.below(6000)); t = strf("set_section_virtual_size(%zu of %zu, %x)", i, n, v); p.set_section_virtual_size(l[i], v); done("virtual-size"); break; }
        case 3: { if(!n) break; u32 a = l[i].get_virtual_address() + static_cast<u32>(r.below(l[i].get_aligned_virtual_size(p.get_section_alignment()) + 1)), sz = static_cast<u32>(r.below(5000)); bool raw = r.chance(50); t = strf("expand_section(%zu of %zu, %x, %x, %d)", i, n, a, sz, raw); p.expand_section(l[i], a, sz, raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual); done("expand"); break; }
        case 4: { t = strf("realign_section(%zu of %zu)", i, n); p.realign_section(static_cast<u32>(i)); done("realign"); break; }
        case 5: t = "realign_all_sections"; p.realign_all_sections(); done("realign"); break;
        case 6: { u32 a = 0x200u << r.below(5); t = strf("realign_file(%x)", a); p.realign_file(a); done("alignment"); break; }
        case 7: { u32 a = 0x200u << r.below(5); t = strf("set_file_alignment(%x)", a); p.set_file_alignment(a); done("alignment"); break; }
        case 8: { if(!n) break; bool st = r.chance(50); t = strf("recalculate_section_sizes(%zu of %zu, %d)", i, n, st); p.recalculate_section_sizes(l[i], st); done("recalculate"); break; }
        case 9: { Bytes st = r.chance(20) ? r.bytes(r.below(3000)) : r.bytes(r.below(200)); t = strf("set_stub_overlay(%zu bytes)", st.size()); p.set_stub_overlay(st); done("stub"); break; }
        case 10: { t = "strip or fill stub"; if(r.chance(50)) p.strip_stub_overlay(); else p.fill_stub_overlay('x'); done("stub"); break; }
        case 11: { u32 d = static_cast<u32>(r.below(17)); t = strf("remove_directory(%u)", d); p.remove_directory(d); done("remove-directory"); break; }
        case 12: { u32 m = static_cast<u32>(r.below(17)); bool f = r.chance(50); t = strf("strip_data_directories(%u, %d)", m, f); p.strip_data_directories(m, f); done("strip-directories"); break; }
        case 13: { u32 m = static_cast<u32>(r.below(18)); t = strf("set_number_of_rvas_and_sizes(%u)", m); p.set_number_of_rvas_and_sizes(m); done("directory-count"); break; }
        case 14: { if(!n || l[i].get_raw_data().empty()) break; size_t o = r.below(l[i].get_raw_data().size()); t = "byte write"; l[i].get_raw_data()[o] = static_cast<char>(r.next()); done("byte-write"); break; }
        case 15: { if(!n) break; t = "virtual data"; if(l[i].get_aligned_virtual_size(p.get_section_alignment()) < (1u << 20)) static_cast<const section&>(l[i]).get_virtual_data(p.get_section_alignment()); done("mapped-view"); break; }
        case 16: { t = "rebase"; if(!p.has_reloc()) break; u64 d = 0x10000 * (1 + r.below(100)); relocation_table_list tl = get_relocations(p); if(p.get_pe_type() == pe_type_64) rebase_image(p, tl, p.get_image_base_64() + d); else rebase_image(p, tl, p.get_image_base_32() + d); done("rebase"); break; }
        case 17: { // change raw data, then bring the headers up to date
            if(!n) break; t = "raw data replaced"; if(i + 1 == n) { l[i].set_raw_data(r.bytes(1 + r.below(5000))); p.recalculate_section_sizes(l[i], r.chance(50)); } else if(l[i].get_raw_data().size() > 1 && l[i].get_virtual_size()) { l[i].get_raw_data().resize(1 + r.below(l[i].get_raw_data().size() - 1)); p.recalculate_section_sizes(l[i], r.chance(50)); } done("raw-data"); break; }
        case 18: { if(!n) break; t = "name and flags"; l[i].set_name(r.ident(0, 12)); l[i].executable(r.chance(50)).writeable(r.chance(50)).shared(r.chance(50)).discardable(r.chance(50)); done("flags"); break; }
        default: { if(p.get_number_of_rvas_and_sizes() < 16) p.set_number_of_rvas_and_sizes(16); if(p.get_image_sections().size() > 90) break;
            auto k = makeKind(static_cast<int>(r.below(KIND_COUNT))); k->pe64 = p.get_pe_type() == pe_type_64; k->base = k->pe64 ? p.get_image_base_64() : p.get_image_base_32(); Spot s = prepareRebuild(r, p, *k, r.chance(70) ? 0 : 1, r.chance(20)); t = strf("rebuild %s into section %zu at %x", k->name, s.sec, s.off); k->rebuild(p, p.get_image_sections()[s.sec], s.off, r.chance(75), r.chance(50)); done("rebuild-directory"); }
        }
    } catch(const CaseSkip&) { t += " (not possible)"; } catch(const pe_exception& e) { t += strf(" refused: %s", e.what()); count("edits-refused"); }
    return t;
}

Obs observeDefaults() {
    Obs o;
    ob(o, "default bound_import_ref", [&](T& t) { std::unique_ptr<bound_import_ref> p(new bound_import_ref()); const bound_import_ref& x = *p; t.t(x.get_module_name()).n(x.get_timestamp()); });
    ob(o, "default bound_import", [&](T& t) { std::unique_ptr<bound_import> p(new bound_import()); const bound_import& x = *p; t.t(x.get_module_name()).n(x.get_timestamp()).n(x.get_module_ref_count()).n(x.get_module_ref_list().size()); });
    ob(o, "default misc_debug_info", [&](T& t) { std::unique_ptr<misc_debug_info> p(new misc_debug_info()); const misc_debug_info& x = *p; t.n(x.get_data_type()).n(x.is_exe_name()).n(x.is_unicode()).t(x.get_data_ansi()).w(x.get_data_unicode()); });
    ob(o, "default coff_debug_info", [&](T& t) { std::unique_ptr<coff_debug_info> p(new coff_debug_info()); const coff_debug_info& x = *p; t.n(x.get_number_of_symbols()).n(x.get_lva_to_first_symbol()).n(x.get_number_of_line_numbers()).n(x.get_lva_to_first_line_number()).n(x.get_rva_to_first_byte_of_code()).n(x.get_rva_to_last_byte_of_code()).n(x.get_rva_to_first_byte_of_data()).n(x.get_rva_to_last_byte_of_data()).n(x.get_symbols().size()); });
    ob(o, "default pdb_7_0_info", [&](T& t) { std::unique_ptr<pdb_7_0_info> p(new pdb_7_0_info()); const pdb_7_0_info& x = *p; t.n(x.get_age()).t(x.get_pdb_file_name()); });
    ob(o, "default pdb_2_0_info", [&](T& t) { std::unique_ptr<pdb_2_0_info> p(new pdb_2_0_info()); const pdb_2_0_info& x = *p; t.n(x.get_signature()).n(x.get_age()).t(x.get_pdb_file_name()); });
    ob(o, "default debug_info", [&](T& t) { std::unique_ptr<debug_info> p(new debug_info()); const debug_info& x = *p; t.n(x.get_characteristics()).n(x.get_time_stamp()).n(x.get_major_version()).n(x.get_minor_version()).n(x.get_type_raw()).n(static_cast<u64>(x.get_type())).n(x.get_size_of_data()).n(x.get_rva_of_raw_data()).n(x.get_pointer_to_raw_data()).n(static_cast<u64>(x.get_advanced_info_type())); });
    ob(o, "default image_directory", [&](T& t) { std::unique_ptr<image_directory> p(new image_directory()); const image_directory& x = *p; t.n(x.get_rva()).n(x.get_size()); });
    ob(o, "default basic_dotnet_info", [&](T& t) { std::unique_ptr<basic_dotnet_info> p(new basic_dotnet_info()); const basic_dotnet_info& x = *p; t.n(x.get_major_runtime_version()).n(x.get_minor_runtime_version()).n(x.get_rva_of_metadata()).n(x.get_size_of_metadata()).n(x.get_flags()).n(x.is_native_entry_point()).n(x.is_32bit_required()).n(x.is_il_library()).n(x.is_il_only()).n(x.get_entry_point_rva_or_token()).n(x.get_rva_of_resources()).n(x.get_size_of_resources()).n(x.get_rva_of_strong_name_signature()).n(x.get_size_of_strong_name_signature()).n(x.get_rva_of_code_manager_table()).n(x.get_size_of_code_manager_table()).n(x.get_rva_of_vtable_fixups()).n(x.get_size_of_vtable_fixups()).n(x.get_rva_of_export_address_table_jumps()).n(x.get_size_of_export_address_table_jumps()).n(x.get_rva_of_managed_native_header()).n(x.get_size_of_managed_native_header()); });
    ob(o, "default exception_entry", [&](T& t) { std::unique_ptr<exception_entry> p(new exception_entry()); const exception_entry& x = *p; t.n(x.get_begin_address()).n(x.get_end_address()).n(x.get_unwind_info_address()).n(x.get_unwind_info_version()).n(x.get_flags()).n(x.has_exception_handler()).n(x.has_termination_handler()).n(x.is_chaininfo()).n(x.get_size_of_prolog()).n(x.get_number_of_unwind_slots()).n(x.uses_frame_pointer()).n(x.get_frame_pointer_register_number()).n(x.get_scaled_rsp_offset()); });
    ob(o, "default exported_function", [&](T& t) { std::unique_ptr<exported_function> p(new exported_function()); const exported_function& x = *p; t.n(x.get_ordinal()).n(x.get_rva()).n(x.has_name()).t(x.get_name()).n(x.get_name_ordinal()).n(x.is_forwarded()).t(x.get_forwarded_name()); });
    ob(o, "default export_info", [&](T& t) { std::unique_ptr<export_info> p(new export_info()); const export_info& x = *p; t.n(x.get_characteristics()).n(x.get_timestamp()).n(x.get_major_version()).n(x.get_minor_version()).t(x.get_name()).n(x.get_ordinal_base()).n(x.get_number_of_functions()).n(x.get_number_of_names()).n(x.get_rva_of_functions()).n(x.get_rva_of_names()).n(x.get_rva_of_name_ordinals()); });
    ob(o, "default imported_function", [&](T& t) { std::unique_ptr<imported_function> p(new imported_function()); const imported_function& x = *p; t.n(x.has_name()).t(x.get_name()).n(x.get_hint()).n(x.get_ordinal()).n(x.get_iat_va()); });
    ob(o, "default import_library", [&](T& t) { std::unique_ptr<import_library> p(new import_library()); const import_library& x = *p; t.t(x.get_name()).n(x.get_rva_to_iat()).n(x.get_rva_to_original_iat()).n(x.get_timestamp()).n(x.get_imported_functions().size()); });
    ob(o, "default image_config_info", [&](T& t) { std::unique_ptr<image_config_info> p(new image_config_info()); const image_config_info& x = *p; t.n(x.get_time_stamp()).n(x.get_major_version()).n(x.get_minor_version()).n(x.get_global_flags_clear()).n(x.get_global_flags_set()).n(x.get_critical_section_default_timeout()).n(x.get_decommit_free_block_threshold()).n(x.get_decommit_total_free_threshold()).n(x.get_lock_prefix_table_va()).n(x.get_max_allocation_size()).n(x.get_virtual_memory_threshold()).n(x.get_process_affinity_mask()).n(x.get_process_heap_flags()).n(x.get_service_pack_version()).n(x.get_edit_list_va()).n(x.get_security_cookie_va()).n(x.get_se_handler_table_va()).n(x.get_se_handler_count()).n(x.get_se_handler_rvas().size()).n(x.get_lock_prefix_rvas().size()); });
    ob(o, "default relocation_entry", [&](T& t) { std::unique_ptr<relocation_entry> p(new relocation_entry()); const relocation_entry& x = *p; t.n(x.get_rva()).n(x.get_type()).n(x.get_item()); });
    ob(o, "default relocation_table", [&](T& t) { std::unique_ptr<relocation_table> p(new relocation_table()); const relocation_table& x = *p; t.n(x.get_relocations().size()).n(x.get_rva()); });
    ob(o, "default tls_info", [&](T& t) { std::unique_ptr<tls_info> p(new tls_info()); const tls_info& x = *p; t.n(x.get_raw_data_start_rva()).n(x.get_raw_data_end_rva()).n(x.get_index_rva()).n(x.get_callbacks_rva()).n(x.get_size_of_zero_fill()).n(x.get_characteristics()).t(x.get_raw_data()).n(x.get_tls_callbacks().size()); });
    ob(o, "default section", [&](T& t) { std::unique_ptr<section> p(new section()); const section& x = *p; t.t(x.get_name()).n(x.readable()).n(x.writeable()).n(x.executable()).n(x.shared()).n(x.discardable()).n(x.empty()).t(x.get_raw_data()).n(x.get_virtual_size()).n(x.get_virtual_address()).n(x.get_size_of_raw_data()).n(x.get_pointer_to_raw_data()).n(x.get_characteristics()); });
    ob(o, "default file_version_info", [&](T& t) { std::unique_ptr<file_version_info> p(new file_version_info()); const file_version_info& x = *p; t.n(x.is_debug()).n(x.is_prerelease()).n(x.is_patched()).n(x.is_private_build()).n(x.is_special_build()).n(x.is_info_inferred()).n(x.get_file_flags()).n(x.get_file_version_ms()).n(x.get_file_version_ls()).n(x.get_product_version_ms()).n(x.get_product_version_ls()).n(x.get_file_os_raw()).n(static_cast<u64>(x.get_file_os())).n(x.get_file_type_raw()).n(static_cast<u64>(x.get_file_type())).n(x.get_file_subtype()).n(x.get_file_date_ms()).n(x.get_file_date_ls()); });
    ob(o, "default message_table_item", [&](T& t) { std::unique_ptr<message_table_item> p(new message_table_item()); const message_table_item& x = *p; t.n(x.is_unicode()).t(x.get_ansi_string()).w(x.get_unicode_string()); });
    ob(o, "default resource_data_entry", [&](T& t) { std::unique_ptr<resource_data_entry> p(new resource_data_entry()); const resource_data_entry& x = *p; t.n(x.get_codepage()).t(x.get_data()); });
    ob(o, "default resource_directory", [&](T& t) { std::unique_ptr<resource_directory> p(new resource_directory()); const resource_directory& x = *p; t.n(x.get_characteristics()).n(x.get_timestamp()).n(x.get_number_of_named_entries()).n(x.get_number_of_id_entries()).n(x.get_major_version()).n(x.get_minor_version()).n(x.get_entry_list().size()); });
    ob(o, "default resource_directory_entry", [&](T& t) { std::unique_ptr<resource_directory_entry> p(new resource_directory_entry()); const resource_directory_entry& x = *p; t.n(x.get_id()).w(x.get_name()).n(x.is_named()).n(x.includes_data()); });
    ob(o, "default rich_data", [&](T& t) { std::unique_ptr<rich_data> p(new rich_data()); const rich_data& x = *p; t.n(x.get_number()).n(x.get_version()).n(x.get_times()); });
    ob(o, "default coff_symbol", [&](T& t) { std::unique_ptr<coff_debug_info::coff_symbol> p(new coff_debug_info::coff_symbol()); const coff_debug_info::coff_symbol& x = *p; t.n(x.get_storage_class()).n(x.get_index()).n(x.get_section_number()).n(x.get_rva()).n(x.get_type()).n(x.is_file()).t(x.get_symbol()); });
    return o;
}
