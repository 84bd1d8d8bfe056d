#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": ["src/pe_lib/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/pe_lib/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/pe_lib/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reading any bytes as an image never corrupts memory, leaks or hangs",
  "For any byte string given as an executable file (normal or memory-dump mode), opening it and running every directory and metadata reader on whatever opens either returns a result or throws a C++ exception derived from std::exception. It never reads or writes outside its own objects, executes undefined behaviour, leaks memory (also when opening fails) or runs without bound.",
  ["inputs"], "every byte string offered as a PE/PE+ file, including truncated, self-overlapping and maliciously linked ones, and every reader run on it",
  "The tests read nine benign files; safety quantifies over all byte strings, where sizes, addresses and counts are attacker chosen.",
  ["pe_base.cpp", "pe_base.h", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_resources.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_debug.cpp", "pe_exception_directory.cpp", "pe_rich_data.cpp", "pe_dotnet.cpp"],
  [("header and section table validation", "pe_base.cpp:read_pe"), ("size-checked typed reads", "pe_base.h:section_data_from_rva<T>"), ("null-termination checks", "utils.h:is_null_terminated"), ("overflow checks", "utils.h:is_sum_safe")],
  observe=["return values and exceptions of the readers", "sanitizer reports", "operator new/delete balance"])
p("C02", "Decoding any bytes as a resource never corrupts memory, leaks or hangs",
  "For any resource tree holding arbitrary bytes as icon or cursor groups and images, bitmaps, string tables, message tables or version information, every high-level resource reader and writer either returns or throws a C++ exception derived from std::exception. It never accesses memory outside its own objects, executes undefined behaviour, leaks or runs without bound.",
  ["inputs"], "every byte string stored as the payload of a typed resource, every identifier, name, language and index asked for",
  "The tests decode a handful of well-formed resources; declared counts and lengths inside a payload are attacker chosen.",
  ["resource_cursor_icon_reader.cpp", "resource_cursor_icon_writer.cpp", "resource_bitmap_reader.cpp", "resource_bitmap_writer.cpp", "resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "resource_version_info_reader.cpp", "pe_resource_viewer.cpp", "pe_resource_manager.cpp"],
  [("declared counts checked against payload size", "resource_cursor_icon_reader.cpp:format_icon_headers"), ("block position and length checks", "resource_version_info_reader.cpp:get_version_info"), ("message block bounds", "resource_message_list_reader.cpp:parse_message_list")],
  observe=["return values and exceptions", "sanitizer reports", "operator new/delete balance"])
p("C03", "Opening a well-formed image reports exactly what the file contains",
  "For every well-formed 32- or 64-bit image file, opening it succeeds, recognises its kind, and reports every header field, every section (name, flags, addresses, sizes, bytes), the stub between the DOS and PE headers, the header bytes and whether data follows the last section exactly as stored in the file; a section's bytes start at its file offset rounded down to the file alignment, as the system loader takes them. Files whose signature, magic, alignment, section table or header sizes break the format rules the library documents are refused with the library's exception.",
  ["inputs"], "every well-formed file layout (any section count, order-preserving file placement, alignment, stub, directory count, optional-header size) and every single-field corruption that the loader must refuse",
  "Tests open a few linker-produced files whose layouts all look alike.",
  ["pe_base.cpp", "pe_factory.cpp", "pe_properties_generic.cpp", "pe_section.cpp"],
  [("kind detection", "pe_base.cpp:get_pe_type"), ("header and section reading", "pe_base.cpp:read_pe"), ("overlay detection", "pe_base.cpp:read_pe")],
  observe=["accessor values of the opened image", "type of the exception on refusal"])
p("C04", "Rebuilding an image preserves what a loader would map",
  "For every image that was opened or built with the library, writing it out produces a file that opens again and whose loader-mapped memory outside the headers, section names, flags, addresses and sizes, header fields and directory entries are those of the image in memory; only fields the rebuild is documented to recompute (file offsets, header sizes, section count, image size, position of header-resident bound imports) may differ.",
  ["inputs", "configurations"], "every well-formed image, 32/64-bit, every combination of the rebuild options, every directory count, with and without raw data in each section",
  "Tests rebuild a few images with default options and compare a few values.",
  ["pe_rebuilder.cpp", "pe_base.cpp", "pe_section.cpp"],
  [("header recomputation", "pe_rebuilder.cpp:rebuild_pe(dos_header)"), ("file emission", "pe_rebuilder.cpp:rebuild_pe(ostream)")],
  observe=["bytes of the output stream parsed by an independent reader"])
p("C05", "A rebuilt file obeys the PE file format layout rules",
  "Every file the library writes with automatic header sizing (the default) has a PE header reachable from the DOS header, aligned header size that covers all headers and does not exceed the first section's address, section data at file-aligned, ascending, non-overlapping offsets inside the file after the headers, contiguous section-aligned addresses, an image size that covers exactly the last section, and consistent counts. This holds for images edited by any accepted sequence of operations; when the headers cannot fit, the rebuild refuses with the library's exception.",
  ["inputs", "histories", "configurations"], "every image reachable by opening or creating one and applying accepted section and directory edits, and every rebuild option",
  "Tests check few fixed edits; layout depends on the interplay of sizes, alignments and history.",
  ["pe_rebuilder.cpp", "pe_base.cpp"],
  [("layout computation", "pe_rebuilder.cpp:rebuild_pe(dos_header)"), ("section preparation", "pe_base.cpp:prepare_section"), ("image size update", "pe_base.cpp:update_image_size")],
  observe=["bytes of the output stream parsed by an independent format checker"])
p("C06", "Rebuilding is deterministic, repeatable and a fixed point",
  "The bytes written for an image depend only on the image's contents: they are the same whatever uninitialised memory happened to contain, the same when the same object is written twice, the same whatever stream they are written to (one that already holds other data, one that cannot be positioned), and reopening a written file and writing it again with the same options reproduces it byte for byte (as long as a bound import directory, if there is one, lies inside the headers or a section). Values returned by readers are likewise fully determined by the file.",
  ["inputs", "configurations"], "every image and rebuild option, under different heap and stack contents",
  "A test sees one heap state; leaking stale memory into output or results does not change any value the tests compare.",
  ["pe_rebuilder.cpp", "pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp"],
  [("zeroed structures", "pe_properties_generic.cpp:create_pe"), ("section padding", "pe_section.cpp:map_virtual"), ("file emission", "pe_rebuilder.cpp:rebuild_pe(ostream)")],
  observe=["output bytes under different heap fill patterns", "valgrind definedness of output and results"])
p("C07", "Section edits keep the section table consistent and lose no data",
  "After any sequence of adding sections, resizing or expanding them, realigning, renaming, and changing the file alignment, sections have unique contiguous section-aligned addresses in order, the section count and image size agree with them, and every byte previously stored in a section is still at its address. Requests the library documents as illegal (resizing or expanding a section that is not last, too small, non-power-of-two or too large file alignment, a 97th section, an empty section) are refused with its exception and leave the image unchanged.",
  ["histories", "inputs"], "every finite sequence of section edits with every argument on images of any alignment and kind",
  "Tests perform single edits; invariants are about sequences and their interaction.",
  ["pe_base.cpp", "pe_section.cpp"],
  [("section insertion", "pe_base.cpp:add_section"), ("resizing", "pe_base.cpp:set_section_virtual_size"), ("expansion", "pe_base.cpp:expand_section"), ("realignment", "pe_base.cpp:realign_section"), ("alignment change", "pe_base.cpp:set_file_alignment")],
  observe=["section accessors compared with a reference model after each operation"])
p("C08", "Address conversions agree with each other and with the section table",
  "For every image, converting between virtual address, relative address, file offset and section-relative offset gives the value determined by the image base and section table, conversions are mutually inverse wherever both directions are defined, and looking up the section of an address finds exactly the section containing it. Addresses that belong to no section, or that do not fit the image's address width, are refused with the library's exception.",
  ["inputs"], "every image base, section layout, and address or offset, in particular section and width boundaries",
  "Tests convert a few addresses of fixed images; errors live at boundaries and extreme bases.",
  ["pe_base.cpp", "pe_properties_generic.cpp", "pe_section.cpp"],
  [("VA to RVA with range check", "pe_properties_generic.cpp:va_to_rva"), ("file offset conversion", "pe_base.cpp:rva_to_file_offset"), ("section lookup", "pe_base.cpp:section_from_rva")],
  observe=["returned addresses and exceptions compared with a reference model"])
p("C09", "Reading image memory by address returns exactly the mapped bytes",
  "Size-checked reads and length queries at any address return precisely the bytes and remaining lengths that the section (file view or zero-padded mapped view) or, on request, the headers hold there, and refuse with the library's exception whenever any requested byte lies outside. Inspecting one view never changes the contents, sizes or later results of the other.",
  ["inputs", "histories"], "every address, width, view and header flag, in every interleaving of file-view and mapped-view accesses",
  "Tests probe a few addresses; the mapped view is a lazily toggled state, so order of accesses matters.",
  ["pe_base.h", "pe_base.cpp", "pe_section.cpp"],
  [("typed access", "pe_base.h:section_data_from_rva<T>"), ("length queries", "pe_base.cpp:section_data_length_from_rva"), ("map/unmap of virtual view", "pe_section.cpp:map_virtual")],
  state=[("raw_data_/old_size_", "section bytes and, while mapped, the original raw length", "pe_section.h")],
  observe=["returned bytes and lengths compared with a reference memory model"])
p("C10", "Imports are read correctly and survive rebuilding",
  "Reading imports yields, for every well-formed import directory placed anywhere in the image, exactly its libraries (name, timestamp, table addresses) and functions (name and hint, or ordinal, and address-table value) in order. Rebuilding any list of imports with any rebuild settings produces a directory from which an independent reader and the library itself recover the same libraries and functions; a directory that does not fit in a section other than the last is refused.",
  ["inputs", "configurations"], "every import list (names, ordinals, empty libraries), kind, table placement and rebuild setting, in new or existing sections at any offset",
  "Tests rebuild a few fixed lists with a few settings.",
  ["pe_imports.cpp", "pe_imports.h"],
  [("reader", "pe_imports.cpp:get_imported_functions_base"), ("rebuilder", "pe_imports.cpp:rebuild_imports_base")],
  observe=["decoded import lists compared with the model through an independent decoder"])
p("C11", "Exports are read correctly and survive rebuilding",
  "Reading exports yields, for every well-formed export directory placed anywhere, exactly its header information and functions (ordinal, address, name with its ordinal, forward target). Rebuilding any valid export list produces a directory with name-sorted tables from which an independent reader and the library recover the same functions and information, and lists with duplicate ordinals or names are refused, as is a directory that does not fit in a section other than the last.",
  ["inputs"], "every export list with gaps, arbitrary ordinal bases, names, name-less and forwarded functions, both kinds, any placement",
  "Tests use a few small lists with contiguous ordinals.",
  ["pe_exports.cpp", "pe_exports.h"],
  [("reader", "pe_exports.cpp:get_exported_functions"), ("rebuilder", "pe_exports.cpp:rebuild_exports"), ("ordinal helpers", "pe_exports.cpp:get_export_ordinal_limits")],
  observe=["decoded export lists compared with the model through an independent decoder"])
p("C12", "Base relocations are read correctly and survive rebuilding",
  "Reading relocations yields, for every well-formed relocation directory, exactly its page tables and entries (address, type), with or without the padding entries as requested. Rebuilding any list of relocation tables produces a directory from which an independent reader and the library recover the same tables with every block 4-byte aligned and the directory size covering exactly the blocks; a directory that does not fit in a section other than the last is refused.",
  ["inputs"], "every list of relocation tables with any number of entries, both kinds, any placement",
  "Tests rebuild the tables of fixed images.",
  ["pe_relocations.cpp", "pe_relocations.h"],
  [("reader", "pe_relocations.cpp:get_relocations"), ("rebuilder", "pe_relocations.cpp:rebuild_relocations")],
  observe=["decoded tables compared with the model through an independent decoder"])
p("C13", "Rebasing changes exactly the relocated locations by the base difference",
  "Moving an image to a new base sets the header base and adds the difference to exactly the locations named by its relocations, with the width and half-word semantics of each type and wrap-around arithmetic; every other byte of every section is unchanged. Moving it back to the old base restores the image (for relocations that do not partially overlap, and for differences of whole 64 KB when only high halves are relocated), and malformed or out-of-range entries are refused with the library's exception without touching memory outside sections.",
  ["inputs"], "every image, relocation list and pair of bases, in particular carries between half-words and slots at section ends",
  "Tests rebase one image once and check a few slots.",
  ["pe_relocations.cpp"],
  [("relocation application", "pe_relocations.cpp:relocation_entry/rebase_image_base")],
  observe=["section bytes before and after compared with an independent relocator"])
p("C14", "TLS directories are read correctly and survive rebuilding",
  "Reading the TLS directory yields exactly its template address range and bytes, index address, callback list, zero-fill size and characteristics. Rebuilding any TLS information with any choice of raw-data and callback writing, placed anywhere it fits, produces a directory and data from which an independent reader and the library recover the same information; information without an index address or with a template ending before it begins, and requests that do not fit, are refused without writing outside the section.",
  ["inputs", "configurations"], "every template size, callback list, kind, placement and write option",
  "Tests use two fixed images and a few offsets.",
  ["pe_tls.cpp", "pe_tls.h"],
  [("reader", "pe_tls.cpp:get_tls_info_base"), ("rebuilder", "pe_tls.cpp:rebuild_tls_base")],
  observe=["decoded directory compared with the model through an independent decoder"])
p("C15", "Load configuration is read correctly and survives rebuilding",
  "Reading the load configuration yields exactly its fields, structured-exception-handler table and lock-prefix table. Rebuilding any configuration with any choice of table writing, placed anywhere it fits, produces a directory and tables from which an independent reader and the library recover the same information with handlers in ascending order; a directory that does not fit in a section other than the last is refused.",
  ["inputs", "configurations"], "every field value, handler list, lock-prefix list, kind, placement and write option",
  "Tests use two fixed images.",
  ["pe_load_config.cpp", "pe_load_config.h"],
  [("reader", "pe_load_config.cpp:get_image_config_base"), ("rebuilder", "pe_load_config.cpp:rebuild_image_config_base")],
  observe=["decoded directory compared with the model through an independent decoder"])
p("C16", "Bound imports are read correctly and survive rebuilding",
  "Reading the bound import directory, in the headers or in a section, yields exactly its modules, timestamps and forwarder references. Rebuilding any list produces a directory from which an independent reader and the library recover the same list, a file rebuild keeps a header-resident directory readable, and lists whose encoding cannot represent them, and a directory that does not fit in a section other than the last, are refused.",
  ["inputs"], "every list of modules and references, names of any length up to and past the format's limits, any placement",
  "Tests use two fixed images and small lists.",
  ["pe_bound_import.cpp", "pe_rebuilder.cpp"],
  [("reader", "pe_bound_import.cpp:get_bound_import_module_list"), ("rebuilder", "pe_bound_import.cpp:rebuild_bound_imports"), ("header-resident preservation", "pe_rebuilder.cpp:rebuild_pe")],
  observe=["decoded lists compared with the model through an independent decoder"])
p("C17", "Resource trees are read correctly and survive rebuilding",
  "Reading resources yields exactly the tree stored in the file: at each level the named then numbered entries, directory attributes, and at the leaves data bytes and code page. Rebuilding any tree produces a directory from which an independent reader and the library recover an equal tree, entries ordered as the format requires, data aligned and non-overlapping; trees the format cannot represent, and a directory that does not fit in a section other than the last, are refused.",
  ["inputs"], "every tree shape, name, identifier, data size and code page, any placement, both kinds",
  "Tests rebuild the resources of a few fixed files.",
  ["pe_resources.cpp", "pe_resources.h"],
  [("reader", "pe_resources.cpp:process_resource_directory"), ("rebuilder", "pe_resources.cpp:rebuild_resource_directory"), ("space computation", "pe_resources.cpp:calculate_resource_data_space")],
  observe=["decoded trees compared with the model through an independent decoder"])
p("C18", "Resource edits behave like a map keyed by type, name and language",
  "After any sequence of adding, replacing and removing resources, types, names and languages, the lookup, listing, existence and count queries answer exactly as a map from (type, name or number, language) to (bytes, code page) would, and writing the tree out and reading it back gives the same map. Operations on absent keys report absence or throw the library's exception as documented and change nothing.",
  ["histories", "inputs"], "every finite sequence of edits and queries with colliding and distinct keys",
  "Tests perform a handful of edits on a fixed tree.",
  ["pe_resource_manager.cpp", "pe_resource_viewer.cpp", "pe_resources.cpp"],
  [("adding", "pe_resource_manager.cpp:add_resource"), ("removing", "pe_resource_manager.cpp:remove_resource"), ("queries", "pe_resource_viewer.cpp")],
  observe=["query results compared with a reference map after each operation"])
p("C19", "Icons and cursors round-trip between files and resources",
  "Adding a well-formed icon or cursor file as a group (new or existing, by name or number, any identifier placement policy) and reading the group back yields a well-formed file with exactly the same images and attributes, after any earlier images of the group. Image identifiers are fresh, other resources are unchanged, single-image extraction yields that image, and removing the group removes exactly its images and itself.",
  ["inputs", "histories"], "every icon and cursor file (counts, dimensions 0-255, hotspots, sizes), policy, key and sequence of additions and removals",
  "Tests add a couple of fixed icons.",
  ["resource_cursor_icon_writer.cpp", "resource_cursor_icon_reader.cpp"],
  [("adding", "resource_cursor_icon_writer.cpp:add_icon/add_cursor"), ("identifier policy", "resource_cursor_icon_writer.cpp:get_icon_or_cursor_free_id_list"), ("reading", "resource_cursor_icon_reader.cpp")],
  observe=["files read back compared with the files added"])
p("C20", "Bitmaps, string tables and message tables decode exactly",
  "A well-formed bitmap file (with an information header of 40 bytes or more) stored as a resource reads back as the same file with the header fields of a correct bitmap file; string-table resources yield exactly the sixteen-string blocks stored, keyed by identifier; message-table resources yield exactly the stored messages keyed by identifier with their encoding.",
  ["inputs"], "every bitmap (depth, palette, size), string block and message table",
  "Tests decode a few fixed resources.",
  ["resource_bitmap_reader.cpp", "resource_bitmap_writer.cpp", "resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "message_table.cpp", "utils.cpp"],
  [("bitmap header reconstruction", "resource_bitmap_reader.cpp:create_bitmap"), ("string parsing", "resource_string_table_reader.cpp:parse_string_list"), ("message parsing", "resource_message_list_reader.cpp:parse_message_list")],
  observe=["decoded values compared with the encoded model"])
p("C21", "Version information round-trips and its editor behaves like a map",
  "Version information (fixed fields, string tables per language, translations) written as a resource decodes, by the library and by an independent reader, to the same values, and well-formed version resources produced by others decode to what they store. The property view and editor return and set the value of the named property in the requested, default or first language exactly as documented.",
  ["inputs", "histories"], "every set of fields, languages, property names, values (empty, odd and even lengths, non-ASCII) and edit sequences",
  "Tests write and read one fixed record.",
  ["resource_version_info_reader.cpp", "resource_version_info_writer.cpp", "version_info_editor.cpp", "version_info_viewer.cpp", "file_version_info.cpp"],
  [("reader", "resource_version_info_reader.cpp:get_version_info"), ("writer", "resource_version_info_writer.cpp:set_version_info"), ("editor", "version_info_editor.cpp:set_property")],
  observe=["decoded values compared with the model through an independent decoder"])
p("C22", "Debug directory information is decoded exactly",
  "For every well-formed debug directory the reader returns one record per entry with its header fields and type, and for CodeView (PDB 7.0, PDB 2.0 and the older signatures), miscellaneous and COFF data the decoded contents stored in the file. Copying or assigning such a record yields an independent equal record, and asking for a kind of detail the record does not hold is refused.",
  ["inputs"], "every list of debug entries, payload kind and contents, placement in headers, sections or outside any section",
  "Tests read one file with three payload kinds.",
  ["pe_debug.cpp", "pe_debug.h", "pe_base.cpp"],
  [("payload loading", "pe_base.cpp:read_pe"), ("decoder", "pe_debug.cpp:get_debug_information")],
  observe=["records compared with the encoded model"])
p("C23", "Exception table, .NET header and Rich data are decoded exactly",
  "For every well-formed image the reported exception entries are exactly those inside the exception directory with the unwind information each refers to, the .NET header fields equal those stored and are refused for non-.NET images, and the Rich records equal those encoded between the DOS and PE headers (none when absent or damaged).",
  ["inputs"], "every exception table, unwind header, .NET header, and Rich block with any key and record list",
  "Tests read one fixed file for each.",
  ["pe_exception_directory.cpp", "pe_dotnet.cpp", "pe_rich_data.cpp"],
  [("exception reader", "pe_exception_directory.cpp:get_exception_directory_data"), (".NET reader", "pe_dotnet.cpp:get_basic_dotnet_info"), ("Rich reader", "pe_rich_data.cpp:get_rich_data")],
  observe=["decoded values compared with the encoded model"])
p("C24", "Checksum and entropy equal their definitions",
  "The computed image checksum equals the standard PE checksum of the stream's bytes for every length and content, does not depend on the stored checksum, and so verifies after being stored. The entropy of a buffer, section, image or the rest of a stream equals the Shannon entropy of those bytes in bits, lies between 0 and 8, and empty input is refused where documented.",
  ["inputs"], "every file length (including non-multiples of four), content, header position and stream position",
  "Tests check a few fixed files.",
  ["pe_checksum.cpp", "entropy.cpp"],
  [("checksum loop", "pe_checksum.cpp:calculate_checksum"), ("entropy", "entropy.cpp:calculate_entropy")],
  observe=["returned values compared with independent implementations"])
p("C25", "Reading leaves the caller's input stream usable and where it was",
  "Detecting the kind, opening an image, and computing a checksum or an entropy leave the caller's input stream at its previous position with its exception mask unchanged and ready for further reading, whether the operation succeeds or fails, and report failure only through the library's own exception.",
  ["inputs", "configurations", "fault_sequences"], "every stream content (well-formed, truncated, malformed), start position and exception mask",
  "Tests use a fresh stream at position zero with the default mask on good files.",
  ["pe_base.cpp", "pe_checksum.cpp", "entropy.cpp", "utils.cpp"],
  [("stream restoration", "pe_base.cpp:pe_base(istream)"), ("stream restoration", "pe_checksum.cpp:calculate_checksum"), ("size query", "utils.cpp:get_file_size")],
  observe=["tellg, exceptions() and rdstate() of the caller's stream before and after"])
p("C26", "Copies of images and resource trees are independent equal values",
  "A copy or assignment (including self-assignment) of an image, section, resource tree, or debug record is equal to its source, and any later edit, rebuild or destruction of one leaves every observable of the other unchanged. Whatever the history, all memory is released exactly once.",
  ["histories"], "every sequence of copy, assign, self-assign, edit, rebuild and destroy operations over a set of objects",
  "Tests copy in passing without editing both sides.",
  ["pe_base.cpp", "pe_resources.cpp", "pe_debug.cpp", "pe_section.cpp"],
  [("deep copy", "pe_base.cpp:operator="), ("owned pointers", "pe_resources.cpp:resource_directory_entry"), ("owned payload", "pe_debug.cpp:copy_advanced_info")],
  observe=["complete observable dump of each object after each step"])
p("C27", "Different images can be processed concurrently without interference",
  "Threads that each open, read, edit, rebuild and query their own image objects and streams at the same time obtain exactly the results they obtain when run one after the other, with no data race.",
  ["schedules"], "every interleaving of threads working on distinct image objects",
  "All tests are single threaded.",
  ["pe_base.cpp", "utils.cpp", "pe_resources.cpp", "pe_imports.cpp", "pe_rebuilder.cpp", "version_info_viewer.cpp"],
  [("no shared mutable state between images", "pe_base.h")],
  observe=["ThreadSanitizer reports", "per-thread result digests compared with the sequential run"])
p("C28", "The data directory table answers and edits exactly the entry asked for",
  "A directory is reported present exactly when its number is below the table's length and its address is non-zero; reading, setting, removing and stripping entries affect exactly the entries documented, and numbers beyond the table are refused with the library's exception for every table length from zero to sixteen. Removing relocations also marks the image as not relocatable, and the rebuilt file's table has exactly the reported length and entries.",
  ["inputs", "histories"], "every table length, directory number and sequence of table edits",
  "Tests use full sixteen-entry tables.",
  ["pe_properties_generic.cpp", "pe_base.cpp", "pe_rebuilder.cpp"],
  [("presence", "pe_properties_generic.cpp:directory_exists"), ("stripping", "pe_properties_generic.cpp:strip_data_directories"), ("removal", "pe_properties_generic.cpp:remove_directory")],
  observe=["accessor results compared with a model table and with the rebuilt file"])
p("C29", "Writing a directory changes only the space that directory occupies",
  "Rebuilding any directory into a section changes no byte before its start offset, no byte after the space it reports needing, no other section and no header field other than that directory's entry and the documented companions (section and image sizes, relocation and address-table flags). A request for a section that is not part of the image, or that would not fit in a non-last section, is refused and leaves the image unchanged.",
  ["inputs", "configurations"], "every directory kind, content, target section (first, middle, last; with other data before and after) and offset",
  "Tests mostly write into fresh sections and look only at the directory written.",
  ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_resources.cpp", "pe_base.cpp"],
  [("space checks", "pe_exports.cpp:rebuild_exports"), ("size recalculation", "pe_base.cpp:recalculate_section_sizes")],
  observe=["full image snapshot diffed around each rebuild"])
p("C30", "Editing and rebuilding with any argument values is memory safe",
  "Every editing and rebuilding operation called with any argument values and object states reachable through the public interface - oversized strings and offsets, empty lists, inconsistent sizes, freshly created or damaged images - either completes or throws a C++ exception derived from std::exception. It never accesses memory outside its own objects, executes undefined behaviour, leaks or runs without bound.",
  ["inputs", "histories"], "every sequence of editing and rebuilding calls with extreme and inconsistent arguments on images opened from arbitrary files",
  "Tests pass sensible arguments.",
  ["pe_rebuilder.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_resources.cpp", "pe_base.cpp"],
  [("space and overflow checks", "pe_tls.cpp:rebuild_tls_base"), ("file emission", "pe_rebuilder.cpp:rebuild_pe(ostream)")],
  observe=["sanitizer reports", "exceptions", "operator new/delete balance"])
p("C31", "Running out of memory at any allocation leaks and corrupts nothing",
  "If any single memory allocation or text-conversion service fails during opening, reading, editing, copying, rebuilding or releasing an image, the operation ends with a C++ exception derived from std::exception (or completes without the optional data), all objects can still be destroyed, nothing is leaked or freed twice, and repeating the operation with memory available gives the normal result.",
  ["fault_sequences", "inputs"], "every allocation point and conversion-service call of every operation as the failure point",
  "Tests never inject allocation failures.",
  ["pe_base.cpp", "pe_resources.cpp", "pe_debug.cpp", "utils.cpp", "pe_resource_manager.cpp"],
  [("owning members", "pe_base.cpp"), ("owned pointers", "pe_resources.cpp"), ("conversion handle release", "utils.cpp:to_ucs2")],
  observe=["operator new/delete balance", "conversion handle balance", "results after retry"])
p("C32", "Images built from scratch through the interface open with what was put in",
  "A new 32- or 64-bit image starts with the library's standard header values; setting its header values, adding sections and directories and writing it produces a file that an independent reader and the library open with exactly the values set, executable/DLL and 32-bit flags as requested, and every added directory readable. Header setters and getters agree for every value and no setter disturbs another field; every record a user starts from (imports, exports, debug, configuration, resources, version information and the like) is empty when default-constructed.",
  ["inputs", "histories", "configurations"], "every kind, alignment, subsystem, sequence of header settings and set of sections",
  "Tests create two images with fixed values.",
  ["pe_base.cpp", "pe_properties_generic.cpp", "pe_rebuilder.cpp"],
  [("creation", "pe_properties_generic.cpp:create_pe"), ("header accessors", "pe_properties_generic.cpp")],
  observe=["accessors and rebuilt bytes compared with a reference header model"])

p("C33", "Damaged directories are refused or reported exactly as stored",
  "Whatever the tables, pointers, counts, lengths and strings of a directory (imports, exports, relocations, TLS, load configuration, bound imports, resources, debug, exceptions, .NET header) or its own address and size are damaged to, the reader of that directory either refuses with the library's exception or returns exactly what is stored where the pointers lead. A table, string or data block that leaves the image, a value that is no address of it, an impossible ordinal or a block too short for its own header is never followed, wrapped, truncated or replaced by something else, and nothing is invented or dropped.",
  ["inputs"], "every damaged directory of every kind in images of every layout, read from files, copies and memory dumps",
  "Tests hold a few damaged files; each check in a reader guards a different combination of field values, and removing one gives plausible wrong values instead of a crash.",
  ["pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_resources.cpp", "pe_debug.cpp", "pe_exception_directory.cpp", "pe_dotnet.cpp"],
  [("import reader", "pe_imports.cpp:get_imported_functions_base"), ("export reader", "pe_exports.cpp:get_exported_functions"), ("relocation reader", "pe_relocations.cpp:get_relocations"), ("TLS reader", "pe_tls.cpp:get_tls_info_base"), ("resource reader", "pe_resources.cpp:process_resource_directory"), ("data access by address", "pe_base.cpp:section_data_from_rva")],
  observe=["values returned by each reader compared with a lenient independent decoder of the mapped image", "refusals where that decoder leaves the image"])

p("C34", "Damaged typed resources are refused or decoded exactly as stored",
  "Whatever bytes a string table, a message table, a bitmap, an icon or cursor group, a single icon or cursor, or a version information resource holds - complete, cut off, extended or altered in any length, count, identifier, offset or key - its reader either refuses with the library's exception or returns exactly the texts, identifiers, headers, images, versions, properties and translations the format stores there, the same by language and by index. A resource that ends inside an entry, lists an image that is absent, has a wrong signature or key, a block shorter than its own key or a cursor without a hotspot is never answered; undamaged ones always are.",
  ["inputs"], "every damaged payload of every typed resource, in memory and through written files",
  "Tests read a few well-formed resources and a few truncated ones; each bound in a parser guards a different combination of lengths, and an off-by-one yields plausible wrong text instead of a crash.",
  ["resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "resource_bitmap_reader.cpp", "resource_cursor_icon_reader.cpp", "resource_version_info_reader.cpp"],
  [("string parser", "resource_string_table_reader.cpp:parse_string_list"), ("message parser", "resource_message_list_reader.cpp:parse_message_list"), ("bitmap header", "resource_bitmap_reader.cpp:create_bitmap"), ("icon headers", "resource_cursor_icon_reader.cpp:format_icon_headers"), ("cursor headers", "resource_cursor_icon_reader.cpp:format_cursor_headers"), ("version blocks", "resource_version_info_reader.cpp:get_version_info")],
  observe=["values returned by every typed reader compared with lenient independent decoders of the stored bytes", "refusals where those decoders leave the resource"])

p("C35", "Nothing is lost over a long history of edits, saves and reopenings",
  "Over any sequence of ordinary operations on one image - writing imports, exports, relocations, TLS, load configuration, bound imports and resources, adding sections, growing the last one, renaming, setting header fields, patching unused bytes, changing the file alignment and realigning, removing directory entries, rebasing with the relocations of the stored addresses, copying, saving (with or without the full DOS header) and reopening - every operation changes only what it is for: section names, addresses and flags, all other mapped bytes, header fields and directory entries stay as the history left them, every directory written and not overwritten since reads back as it was put in at every later step, each saved file is valid and holds them for an independent reader, and directories a shipped image came with stay readable with the same contents.",
  ["histories", "inputs"], "every order and number of operations on images of every layout",
  "Tests perform one or two operations on fixed files; state left behind by one operation (sizes, flags, cached headers, alignment) that breaks a later one needs a particular sequence.",
  ["pe_base.cpp", "pe_rebuilder.cpp", "pe_section.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_resources.cpp", "pe_properties_generic.cpp"],
  [("section table", "pe_base.cpp:add_section"), ("writing", "pe_rebuilder.cpp:rebuild_pe"), ("opening", "pe_base.cpp:read_pe"), ("rebasing", "pe_relocations.cpp:rebase_image_base"), ("realigning", "pe_base.cpp:realign_section")],
  observe=["section table, mapped bytes, directory table, header fields after every operation", "every directory written so far, read by the library and independently"])

p("C36", "The sample programs do what they say on any file and leave everything else alone",
  "Each of the 27 sample programs, given any bytes as its file and any text as its input, ends by itself with code 0 or -1, without memory errors, undefined behaviour, leaks or uncaught exceptions, never changes the file it reads, and creates no file but the one it announces; files the library refuses are answered with an error message. The reading ones print exactly the headers, sections, addresses, checksum, entropy, imports, exports, relocations, TLS, load configuration, bound imports, debug entries, exception table, .NET header, Rich records and kinds of resource the file contains; the editing ones write a valid file in which a loader maps every original section as before, all directories and header fields they do not edit are unchanged, and the announced edit - added section, import, export, relocation, TLS data, other alignment, other base with every relocated value moved along, stripped stub, rebuilt headers, icon and version information - is present.",
  ["inputs"], "every input file and every answer typed by the user",
  "No test runs the samples, which use the library end to end the way its users do; interplay of reading, section growth, rebuilding and writing with several directories present shows only there.",
  ["src/samples/*/main.cpp", "pe_factory.cpp", "pe_base.cpp", "pe_rebuilder.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp"],
  [("opening", "pe_factory.cpp:create_pe"), ("writing", "pe_rebuilder.cpp:rebuild_pe"), ("section table", "pe_base.cpp:add_section"), ("realigning", "pe_base.cpp:realign_file")],
  observe=["text printed, return code, files created, per program and file", "written files parsed and mapped independently and compared with the original"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
