#include "lib.h"
void compareImage(const pe_base& p, const Img& im, const char* key) {
    EQ(p.get_pe_type() == pe_type_64, im.pe64, key, "kind");
    Bytes nt(p.get_nt_headers_ptr(), p.get_sizeof_nt_header());
    for(int i = 0; i < NHF; ++i) {
        int o = im.pe64 ? HFI[i].off64 : HFI[i].off32, s = im.pe64 ? HFI[i].size64 : HFI[i].size32;
        if(s) EQ(rdn(nt, o, s), im.h[i], key, "stored header field %s", HFI[i].name);
    }
    EQ(p.get_machine(), im.h[MACHINE], key, "machine"); EQ(p.get_number_of_sections(), im.h[NSEC], key, "section count");
    EQ(p.get_time_date_stamp(), im.h[TS], key, "timestamp"); EQ(p.get_size_of_optional_header(), im.h[OPTSIZE], key, "optional header size");
    EQ(p.get_characteristics(), im.h[CHARS], key, "characteristics"); EQ(p.get_magic(), im.h[MAGIC], key, "magic"); EQ(p.get_ep(), im.h[EP], key, "entry point");
    EQ(p.get_pe_signature(), 0x4550u, key, "signature");
    EQ(p.get_base_of_code(), im.h[BASECODE], key, "base of code"); EQ(p.get_image_base_64(), im.h[IMGBASE], key, "image base 64"); EQ(p.get_image_base_32(), im.h[IMGBASE], key, "image base 32");
    EQ(p.get_section_alignment(), im.h[SA], key, "section alignment"); EQ(p.get_file_alignment(), im.h[FA], key, "file alignment");
    EQ(p.get_major_os_version(), im.h[OSMAJ], key, "os major"); EQ(p.get_minor_os_version(), im.h[OSMIN], key, "os minor");
    EQ(p.get_major_subsystem_version(), im.h[SUBMAJ], key, "subsystem major"); EQ(p.get_minor_subsystem_version(), im.h[SUBMIN], key, "subsystem minor");
    EQ(p.get_size_of_image(), im.h[SIZEIMG], key, "size of image"); EQ(p.get_size_of_headers(), im.h[SIZEHDR], key, "size of headers"); EQ(p.get_checksum(), im.h[CHK], key, "checksum");
    EQ(p.get_subsystem(), im.h[SUBSYS], key, "subsystem"); EQ(p.get_dll_characteristics(), im.h[DLLCH], key, "dll characteristics");
    EQ(p.is_gui(), im.h[SUBSYS] == 2, key, "gui"); EQ(p.is_console(), im.h[SUBSYS] == 3, key, "console");
    EQ(p.get_stack_size_reserve_64(), im.h[STKRES], key, "stack reserve"); EQ(p.get_stack_size_commit_64(), im.h[STKCOM], key, "stack commit");
    EQ(p.get_heap_size_reserve_64(), im.h[HEAPRES], key, "heap reserve"); EQ(p.get_heap_size_commit_64(), im.h[HEAPCOM], key, "heap commit");
    EQ(p.get_stack_size_reserve_32(), im.h[STKRES], key, "stack reserve 32"); EQ(p.get_stack_size_commit_32(), im.h[STKCOM], key, "stack commit 32");
    EQ(p.get_heap_size_reserve_32(), im.h[HEAPRES], key, "heap reserve 32"); EQ(p.get_heap_size_commit_32(), im.h[HEAPCOM], key, "heap commit 32");
    EQ(p.get_number_of_rvas_and_sizes(), im.ndirs(), key, "directory count");
    for(u32 i = 0; i < im.ndirs(); ++i) { EQ(p.get_directory_rva(i), im.dir[i][0], key, "directory %u address", i); EQ(p.get_directory_size(i), im.dir[i][1], key, "directory %u size", i); EQ(p.directory_exists(i), im.dir[i][0] != 0, key, "directory %u present", i); }
    const section_list& sl = p.get_image_sections();
    EQ(sl.size(), im.secs.size(), key, "sections");
    for(size_t i = 0; i < sl.size(); ++i) {
        const section& s = sl[i]; const RSec& m = im.secs[i];
        EQ(s.get_name(), m.cname(), key, "section %zu name", i); EQ(s.get_virtual_address(), m.va, key, "section %zu address", i); EQ(s.get_virtual_size(), m.vsize, key, "section %zu virtual size", i);
        EQ(s.get_size_of_raw_data(), m.rawsize, key, "section %zu raw size", i); EQ(s.get_pointer_to_raw_data(), m.rawptr, key, "section %zu file offset", i); EQ(s.get_characteristics(), m.chars, key, "section %zu flags", i);
        EQ(s.executable(), (m.chars & 0x20000000) != 0, key, "section %zu executable", i); EQ(s.readable(), (m.chars & 0x40000000) != 0, key, "section %zu readable", i);
        EQ(s.writeable(), (m.chars & 0x80000000) != 0, key, "section %zu writeable", i); EQ(s.shared(), (m.chars & 0x10000000) != 0, key, "section %zu shared", i); EQ(s.discardable(), (m.chars & 0x02000000) != 0, key, "section %zu discardable", i);
        EQ(s.get_raw_header().PointerToRelocations, m.relptr, key, "section %zu relocation pointer", i); EQ(s.get_raw_header().PointerToLinenumbers, m.lineptr, key, "section %zu line pointer", i);
        EQ(s.get_raw_header().NumberOfRelocations, m.nrel, key, "section %zu relocation count", i); EQ(s.get_raw_header().NumberOfLinenumbers, m.nline, key, "section %zu line count", i);
        EQ(Bytes(reinterpret_cast<const char*>(s.get_raw_header().Name), 8), m.name, key, "section %zu stored name", i);
        EQ(s.empty(), m.rawsize == 0, key, "section %zu empty", i);
        CHECK(s.get_raw_data() == m.data, key, "section %zu bytes: %s", i, diffAt(s.get_raw_data(), m.data).c_str());
        EQ(s.get_aligned_virtual_size(p.get_section_alignment()), m.span(static_cast<u32>(im.h[SA])), key, "section %zu mapped size", i);
        EQ(s.get_aligned_raw_size(p.get_file_alignment()), up(m.rawsize, im.h[FA]), key, "section %zu aligned raw size", i);
    }
}
bool headersFull(const pe_base& p) {
    if(p.get_image_sections().empty()) return false;
    u64 n = 64 + up(p.get_stub_overlay().size(), 8) + p.get_sizeof_nt_header() + 40 * (p.get_image_sections().size() + 1) + 64;
    if(p.has_bound_import()) n += p.get_directory_size(D_BOUND);
    return up(n, p.get_file_alignment()) > p.get_image_sections()[0].get_virtual_address();
}
