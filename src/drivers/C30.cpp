// Hostile arguments on editing and rebuilding, memory safety
#include "../sweep.h"
extern const char* const PROPERTY = "C30";
extern const char* const RULE = "each case takes a generated, damaged, shipped or newly created image, then applies a random sequence of section edits, header settings, directory edits, all directory rebuilds with hostile lists (from the image itself with fields damaged, or made up), typed resource edits, rebasing and writing, with boundary-biased arguments (addresses and sizes near section ends and near 2^32, unattached sections, empty and oversized lists), reads everything back in between, under ASan+UBSan with allocation-balance, allocation-size and CPU-time monitors; non-trivial: at least one operation completed and one was refused; distinct by operations and input";
u64 num_cases(bool t) { return t ? 2500000 : 30000; }
void setup() { realFiles(); observeTyped(resource_directory()); alloc::single_cap = 32u << 20; alloc::total_cap = 256u << 20; alloc::track_leaks(true); }
namespace {
struct Hos {
    Rng& r; pe_base& p; u64 ok, no; std::string trace;
    section spare;
    Hos(Rng& rr, pe_base& pp) : r(rr), p(pp), ok(0), no(0) { spare.set_raw_data(r.bytes(r.below(3000))); spare.set_virtual_size(r.edge32()); spare.set_virtual_address(r.edge32()); }
    u32 near() { // an address near something that exists
        std::vector<u32> v; v.push_back(p.get_size_of_image()); v.push_back(static_cast<u32>(p.get_full_headers_data().size())); v.push_back(0);
        for(const section& s : p.get_image_sections()) { v.push_back(s.get_virtual_address()); v.push_back(s.get_virtual_address() + s.get_virtual_size()); v.push_back(s.get_virtual_address() + static_cast<u32>(s.get_raw_data().size())); v.push_back(s.get_pointer_to_raw_data()); v.push_back(s.get_pointer_to_raw_data() + s.get_size_of_raw_data()); }
        for(u32 i = 0; i < 15; ++i) try { v.push_back(p.get_directory_rva(i)); v.push_back(p.get_directory_rva(i) + p.get_directory_size(i)); } catch(const pe_exception&) {}
        return r.pick(v) + static_cast<u32>(r.below(33)) - 16;
    }
    u32 num() { switch(r.below(5)) { case 0: return r.edge32(); case 1: return static_cast<u32>(r.below(20)); case 2: return static_cast<u32>(r.below(0x3000)); default: return near(); } }
    u32 off(const section& s) { u32 n = static_cast<u32>(s.get_raw_data().size()); switch(r.below(6)) { case 0: return n; case 1: return n - static_cast<u32>(r.below(40)); case 2: return n + static_cast<u32>(r.below(40)); case 3: return r.edge32(); default: return n ? static_cast<u32>(r.below(n)) : 0; } }
    u32 tail() { // close before the end of some section's data, or well inside it
        section_list& l = p.get_image_sections(); if(l.empty()) return num(); const section& s = l[r.below(l.size())]; u32 n = static_cast<u32>(s.get_raw_data().size()); return s.get_virtual_address() + n - static_cast<u32>(r.chance(50) ? r.below(40) : r.below(n + 1)); }
    u64 va() { u64 base = p.get_pe_type() == pe_type_64 ? p.get_image_base_64() : p.get_image_base_32(); return r.chance(75) ? base + (r.chance(50) ? tail() : num()) : r.edge64(); }
    std::string str() { switch(r.below(12)) { case 0: return ""; case 1: return r.bytes(1 + r.below(40)); case 2: return Bytes(r.chance(50) ? 0x10000 : 5000, 'x'); case 3: return std::string("a\0b", 3); default: return r.ident(0, 20); } }
    section& sec() { section_list& l = p.get_image_sections(); if(l.empty() || r.chance(4)) return spare; return r.chance(50) ? l.back() : l[r.below(l.size())]; }
    imported_functions_list imports() {
        imported_functions_list l; if(r.chance(50)) try { l = get_imported_functions(p); } catch(const std::exception&) {}
        if(l.size() > 40) l.resize(40);
        for(u64 n = l.empty() ? r.below(6) : r.below(3); n; --n) { import_library x; x.set_name(str()); l.push_back(x); }
        for(auto& x : l) { if(r.chance(40)) x.set_rva_to_iat(r.chance(70) ? tail() : num()); if(r.chance(40)) x.set_rva_to_original_iat(r.chance(70) ? tail() : num()); if(r.chance(20)) x.set_timestamp(num()); if(r.chance(5)) x.clear_imports(); if(r.chance(5)) x.set_name(str());
            for(u64 n = r.below(5); n; --n) { imported_function f; if(r.chance(60)) f.set_name(str()); f.set_hint(static_cast<u16>(r.next())); f.set_ordinal(static_cast<u16>(r.next())); f.set_iat_va(r.edge64()); x.add_import(f); } }
        return l;
    }
    exported_functions_list exports(export_info& i) {
        exported_functions_list l; if(r.chance(50)) try { l = get_exported_functions(p, i); } catch(const std::exception&) {}
        if(l.size() > 3000) l.resize(3000);
        if(r.chance(40)) i.set_name(str()); if(r.chance(30)) i.set_ordinal_base(num()); if(r.chance(20)) i.set_number_of_functions(num()); if(r.chance(20)) i.set_number_of_names(num()); if(r.chance(20)) i.set_rva_of_functions(num()); if(r.chance(20)) i.set_rva_of_names(num()); if(r.chance(20)) i.set_rva_of_name_ordinals(num());
        for(u64 n = r.below(6); n; --n) { exported_function f; f.set_ordinal(r.chance(70) ? static_cast<u16>(1 + r.below(8)) : static_cast<u16>(r.next())); f.set_rva(num()); if(r.chance(60)) f.set_name(str()); f.set_name_ordinal(static_cast<u16>(r.next())); if(r.chance(30)) f.set_forwarded_name(str()); l.push_back(f); }
        return l;
    }
    relocation_table_list relocs() {
        relocation_table_list l; if(r.chance(60)) try { l = get_relocations(p, r.chance(50)); } catch(const std::exception&) {}
        if(l.size() > 60) l.resize(60);
        for(u64 n = r.below(4); n; --n) { relocation_table t(num()); u64 k = r.chance(3) ? 0x4010 : r.below(8); for(; k; --k) { relocation_entry e; if(r.chance(50)) e.set_item(static_cast<u16>(r.next())); else { e.set_rva(static_cast<u16>(r.chance(90) ? r.below(0x1000) : r.next())); e.set_type(static_cast<u16>(r.chance(80) ? (r.chance(50) ? 3 : 10) : r.next())); } t.add_relocation(e); } l.push_back(t); }
        for(auto& t : l) if(r.chance(10)) t.set_rva(num());
        return l;
    }
    tls_info tls() {
        tls_info i; if(r.chance(50)) try { i = get_tls_info(p); } catch(const std::exception&) {}
        if(r.chance(40)) i.set_raw_data_start_rva(r.chance(50) ? tail() : num()); if(r.chance(40)) i.set_raw_data_end_rva(r.chance(60) ? i.get_raw_data_start_rva() + static_cast<u32>(r.below(200)) : num()); if(r.chance(40)) i.set_index_rva(num()); if(r.chance(40)) i.set_callbacks_rva(r.chance(50) ? tail() : num()); if(r.chance(40)) i.set_size_of_zero_fill(num()); if(r.chance(40)) i.set_raw_data(str()); if(r.chance(20)) i.recalc_raw_data_end_rva(); if(r.chance(10)) i.clear_tls_callbacks();
        for(u64 n = r.below(5); n; --n) i.add_tls_callback(num());
        return i;
    }
    image_config_info config() {
        image_config_info i; if(r.chance(50)) try { i = get_image_config(p); } catch(const std::exception&) {}
        if(r.chance(50)) i.set_se_handler_table_va(va()); if(r.chance(50)) i.set_lock_prefix_table_va(va()); if(r.chance(30)) i.set_security_cookie_va(r.edge64()); if(r.chance(30)) i.set_edit_list_va(r.edge64()); if(r.chance(30)) i.set_max_allocation_size(r.edge64()); if(r.chance(10)) i.clear_se_handler_list(); if(r.chance(10)) i.clear_lock_prefix_list();
        for(u64 n = r.below(5); n; --n) i.add_se_handler_rva(num()); for(u64 n = r.below(5); n; --n) i.add_lock_prefix_rva(num());
        return i;
    }
    bound_import_module_list bounds() {
        bound_import_module_list l; if(r.chance(50)) try { l = get_bound_import_module_list(p); } catch(const std::exception&) {}
        if(l.size() > 40) l.resize(40);
        for(u64 n = r.below(4); n; --n) { bound_import b(str(), num()); for(u64 k = r.below(4); k; --k) b.add_module_ref(bound_import_ref(str(), num())); l.push_back(b); }
        return l;
    }
    resource_directory tree() {
        resource_directory d; if(r.chance(50)) try { d = get_resources(p); } catch(const std::exception&) {} else if(r.chance(50)) d = typedTree(r);
        if(r.chance(50)) mutateTree(r, d); if(r.chance(20)) editTyped(r, d, 1 + r.below(3)); if(r.chance(10)) { d.set_number_of_named_entries(num()); d.set_number_of_id_entries(num()); }
        if(r.chance(5)) { resource_directory_entry e; e.set_name(std::wstring(r.chance(50) ? 0x10000 : 0xFFFF, L'n')); e.add_data_entry(resource_data_entry(str(), num())); d.add_resource_directory_entry(e); }
        if(r.chance(5)) { resource_directory_entry e; d.add_resource_directory_entry(e); } // neither data nor directory
        return d;
    }
    template<class F> void run(const char* what, F f) {
        trace += what; trace += ';';
        try { f(); ++ok; count("operations-completed"); }
        catch(const pe_exception& e) { ++no; trace += "refused;"; count("operations-refused"); }
        catch(const std::bad_alloc&) { ++no; trace += "memory;"; count("operations-out-of-memory"); }
        catch(const std::exception& e) { ++no; trace += "other;"; count("operations-refused-by-standard-exception"); }
    }
    void write(bool strip, bool hdr, bool bound) {
        // writing takes time in proportion to the file size that was asked for; only files up to 16 MB are asked for
        u64 total = p.get_file_alignment(); if(!hdr) total += p.get_size_of_headers(); for(const section& s : p.get_image_sections()) total += static_cast<u64>(s.get_size_of_raw_data()) + p.get_file_alignment(); if(total > (16u << 20)) { count("huge-files-not-written"); return; }
        std::ostringstream o; if(r.chance(10)) o.setstate(r.chance(50) ? std::ios::badbit : std::ios::failbit);
        run("write", [&] { rebuild_pe(p, o, strip, hdr, bound); });
        std::string f = o.str(); if(f.size() > (1u << 20)) return;
        try { pe_base q = openPe(f); Obs x = observe(q); count("written-images-read", x.size() > 0); } catch(const std::exception&) { count("written-images-refused"); }
    }
    void step() {
        section_list& l = p.get_image_sections(); bool hd = r.chance(75), st = r.chance(50); u32 a = num(), b = num();
        switch(r.below(44)) {
        case 0: run("add_section", [&] { section s; if(r.chance(70)) s.set_raw_data(r.bytes(r.below(3000))); if(r.chance(50)) s.set_virtual_size(num()); if(r.chance(50)) s.set_virtual_address(num()); if(r.chance(20)) s.set_size_of_raw_data(num()); if(r.chance(20)) s.set_pointer_to_raw_data(num()); s.set_name(r.ident(0, 12)); p.add_section(s, r.chance(60)); }); break;
        case 1: run("set_section_virtual_size", [&] { p.set_section_virtual_size(sec(), num()); }); break;
        case 2: case 3: run("expand_section", [&] { p.expand_section(sec(), a, b, st ? pe_base::expand_section_raw : pe_base::expand_section_virtual); }); break;
        case 4: run("realign_section", [&] { p.realign_section(r.chance(80) ? static_cast<u32>(r.below(l.size() + 2)) : a); }); break;
        case 5: run("realign_all", [&] { p.realign_all_sections(); }); break;
        case 6: run("realign_file", [&] { p.realign_file(r.chance(50) ? 1u << r.below(32) : a); }); break;
        case 7: run("set_file_alignment", [&] { p.set_file_alignment(r.chance(50) ? 1u << r.below(32) : a); }); break;
        case 8: run("recalculate", [&] { p.recalculate_section_sizes(sec(), st); }); break;
        case 9: run("stub", [&] { switch(r.below(4)) { case 0: p.set_stub_overlay(str()); break; case 1: p.set_stub_overlay(r.bytes(r.below(5000))); break; case 2: p.strip_stub_overlay(); break; default: p.fill_stub_overlay('z'); } }); break;
        case 10: run("dos header", [&] { pe_win::image_dos_header& d = p.get_dos_header(); switch(r.below(3)) { case 0: d.e_lfanew = static_cast<i32>(a); break; case 1: d.e_magic = static_cast<u16>(a); break; default: d.e_lfanew = static_cast<i32>(static_cast<u32>(d.e_lfanew) + static_cast<u32>(r.below(64)) - 32u); } }); break;
        case 11: run("directory entry", [&] { u32 i = static_cast<u32>(r.below(17)); if(r.chance(70)) p.set_directory_rva(i, a); if(r.chance(70)) p.set_directory_size(i, b); }); break;
        case 12: run("remove_directory", [&] { p.remove_directory(r.chance(80) ? static_cast<u32>(r.below(17)) : a); }); break;
        case 13: run("directory count", [&] { if(st) p.set_number_of_rvas_and_sizes(r.chance(50) ? static_cast<u32>(r.below(20)) : a); else p.strip_data_directories(r.chance(60) ? static_cast<u32>(r.below(20)) : a, hd); }); break;
        case 14: run("header values", [&] { switch(r.below(12)) { case 0: p.set_ep(a); break; case 1: p.set_size_of_headers(a); break; case 2: p.set_size_of_optional_header(static_cast<u16>(a)); break; case 3: p.set_base_of_code(a); break; case 4: p.set_characteristics(static_cast<u16>(a)); break; case 5: p.set_machine(static_cast<u16>(a)); break; case 6: p.set_subsystem(static_cast<u16>(a)); break; case 7: p.set_image_base(a); break; case 8: p.set_image_base_64(r.edge64()); break; case 9: p.set_stack_size_commit(static_cast<u64>(r.edge64())); break; case 10: p.set_heap_size_reserve(a); break; default: p.set_checksum(a); } }); break;
        case 15: run("update", [&] { if(st) p.update_image_size(); else p.update_number_of_sections(); }); break;
        case 16: case 17: run("section fields", [&] { section& s = sec(); switch(r.below(5)) { case 0: s.set_virtual_size(a); break; case 1: s.set_virtual_address(a); break; case 2: s.set_size_of_raw_data(a); break; case 3: s.set_pointer_to_raw_data(a); break; default: s.set_characteristics(a); } }); break;
        case 18: run("raw data", [&] { section& s = sec(); std::string& d = s.get_raw_data(); switch(r.below(4)) { case 0: d.clear(); break; case 1: d.resize(r.below(d.size() + 1)); break; case 2: d.append(r.bytes(r.below(2000))); break; default: s.set_raw_data(r.bytes(r.below(2000))); } }); break;
        case 19: run("mapped view", [&] { section& s = sec(); if(s.get_virtual_size() > (1u << 22)) return; u32 al = r.chance(80) ? p.get_section_alignment() : r.chance(50) ? 1u << r.below(20) : a; std::string& d = s.get_virtual_data(al); if(!d.empty()) d[r.below(d.size())] = 1; if(r.chance(20)) d.resize(r.below(d.size() + 1)); }); break;
        case 20: run("prepare_section", [&] { p.prepare_section(sec()); }); break;
        case 21: run("remove section", [&] { if(!l.empty() && r.chance(40)) l.erase(l.begin() + static_cast<long>(r.below(l.size()))); else if(l.size() < 80 && r.chance(30) && !l.empty()) l.push_back(l[r.below(l.size())]); else if(l.size() > 1) std::swap(l[0], l[r.below(l.size())]); }); break;
        case 22: case 23: run("imports", [&] { section& s = sec(); import_rebuilder_settings g(hd, st); g.set_offset_from_section_start(off(s)); g.build_original_iat(r.chance(50)); g.save_iat_and_original_iat_rvas(r.chance(60), r.chance(50)); g.fill_missing_original_iats(r.chance(50)); g.enable_auto_strip_last_section(r.chance(50)); rebuild_imports(p, imports(), s, g); }); break;
        case 24: case 25: run("exports", [&] { section& s = sec(); export_info i; exported_functions_list e = exports(i); if(r.chance(30)) get_export_ordinal_limits(e); rebuild_exports(p, i, e, s, off(s), hd, st); }); break;
        case 26: case 27: run("relocations", [&] { section& s = sec(); rebuild_relocations(p, relocs(), s, off(s), hd, st); }); break;
        case 28: case 29: run("tls", [&] { section& s = sec(); rebuild_tls(p, tls(), s, off(s), r.chance(70), r.chance(70), r.chance(50) ? tls_data_expand_raw : tls_data_expand_virtual, hd, st); }); break;
        case 30: case 31: run("config", [&] { section& s = sec(); rebuild_image_config(p, config(), s, off(s), r.chance(70), r.chance(70), hd, st); }); break;
        case 32: case 33: run("bound imports", [&] { section& s = sec(); rebuild_bound_imports(p, bounds(), s, off(s), hd, st); }); break;
        case 34: case 35: run("resources", [&] { section& s = sec(); resource_directory d = tree(); rebuild_resources(p, d, s, off(s), hd, st); }); break;
        case 36: run("rebase", [&] { relocation_table_list t = relocs(); if(p.get_pe_type() == pe_type_64 || r.chance(5)) { if(r.chance(50)) rebase_image(p, t, r.edge64()); else rebase_image(p, t, p.get_image_base_64() + 0x10000u * r.below(9)); } else rebase_image(p, t, r.edge64()); }); break;
        case 37: run("ordinary edit", [&] { randomEdit(r, p); }); break;
        case 38: run("copy", [&] { pe_base q(p); if(st) std::swap(q.get_image_sections(), p.get_image_sections()); p = q; }); break;
        case 39: run("write through pointers", [&] { char* d = hd ? p.section_data_from_rva(a, true) : p.section_data_from_va(va(), st); u32 n = hd ? p.section_data_length_from_rva(a, a, section_data_raw, true) : 0; if(n) d[n - 1] = 1; }); break;
        case 40: run("address conversions", [&] { touch(p, r); }); break;
        case 41: run("read everything", [&] { observe(p); }); break;
        default: write(r.chance(40), r.chance(80), r.chance(70)); break;
        }
    }
};
}
void run_case(Rng& r, u64) {
    Bytes f; std::unique_ptr<pe_base> p;
    try {
        if(r.chance(15)) { u32 al = r.chance(60) ? 1u << (9 + r.below(9)) : r.edge32(); if(r.chance(50)) p.reset(new pe_base(pe_properties_32(), al, r.chance(50), static_cast<u16>(r.next()))); else p.reset(new pe_base(pe_properties_64(), al, r.chance(50), static_cast<u16>(r.next()))); count("created"); }
        else {
            if(r.chance(10)) { const auto& rf = realFiles(); f = rf[r.below(rf.size())].second; if(f.size() > 60000) throw CaseSkip(); }
            else { Rich x = richImage(r); f = x.im.file(); if(r.chance(40)) f = mutateImage(r, f, x.regions); }
            note_input(f); p.reset(new pe_base(openPe(f))); count("opened");
        }
    } catch(const std::exception&) { throw CaseSkip(); }
    Hos h(r, *p); for(u64 n = 2 + r.below(14); n; --n) h.step();
    h.write(r.chance(30), r.chance(80), r.chance(80));
    try { observe(*p); touch(*p, r); } catch(const std::exception&) {}
    if(h.ok && h.no) nontrivial(fnv(h.trace, fnv(f)));
}
