From ea4825d5efcb2dceddc9132b12d305fc70d835ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 01/83] fix: free image properties when opening an image fails

---
 src/pe_lib/pe_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..a21645f 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -35,6 +35,8 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
         file.seekg(old_offset);
         file.exceptions(state);
         file.clear();
+        //Destructor will not be called, so free the properties here
+        delete props_;
         //Rethrow
         throw;
     }
-- 
2.43.0


From 87c5e70ba430fa994bcb723ecab9442aa36c3a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 02/83] fix: restore stream position and exception mask on
 every path of opening, checksum and entropy

---
 src/pe_lib/entropy.cpp     | 15 +++++++++++----
 src/pe_lib/pe_base.cpp     | 39 +++++---------------------------------
 src/pe_lib/pe_checksum.cpp | 23 ++++------------------
 src/pe_lib/utils.cpp       | 27 ++++++++++++++++++++++++++
 src/pe_lib/utils.h         | 17 +++++++++++++++++
 5 files changed, 64 insertions(+), 57 deletions(-)

diff --git a/src/pe_lib/entropy.cpp b/src/pe_lib/entropy.cpp
index 12a3223..cc55c8f 100644
--- a/src/pe_lib/entropy.cpp
+++ b/src/pe_lib/entropy.cpp
@@ -21,19 +21,26 @@ double entropy_calculator::calculate_entropy(std::istream& file)
     if(file.bad())
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
-    std::streamoff pos = file.tellg();
+    //Save istream state
+    istream_state_saver saver(file);
+    if(file.fail())
+        throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
     std::streamoff length = pe_utils::get_file_size(file);
     length -= file.tellg();
 
-    if(!length) //Don't calculate entropy for empty buffers
+    if(length <= 0) //Don't calculate entropy for empty buffers
         throw pe_exception("Data length is zero", pe_exception::data_is_empty);
 
     //Count bytes
     for(std::streamoff i = 0; i != length; ++i)
-        ++byte_count[static_cast<unsigned char>(file.get())];
+    {
+        int value = file.get();
+        if(!file.good())
+            throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
-    file.seekg(pos);
+        ++byte_count[static_cast<unsigned char>(value)];
+    }
 
     return calculate_entropy(byte_count, length);
 }
diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index a21645f..f3a552f 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -18,33 +18,21 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
 {
     props_ = props.duplicate().release();
 
-    //Save istream state
-    std::ios_base::iostate state = file.exceptions();
-    std::streamoff old_offset = file.tellg();
-
     try
     {
-        file.exceptions(std::ios::goodbit);
+        //Save istream state
+        istream_state_saver saver(file);
         //Read DOS header, PE headers and section data
         read_dos_header(file);
         read_pe(file, read_debug_raw_data, is_file_from_mem);
     }
     catch(const std::exception&)
     {
-        //If something went wrong, restore istream state
-        file.seekg(old_offset);
-        file.exceptions(state);
-        file.clear();
         //Destructor will not be called, so free the properties here
         delete props_;
         //Rethrow
         throw;
     }
-
-    //Restore istream state
-    file.seekg(old_offset);
-    file.exceptions(state);
-    file.clear();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -761,12 +749,12 @@ const char* pe_base::section_data_from_rva(uint32_t rva, section_data_type datat
 void pe_base::read_dos_header(std::istream& file, image_dos_header& header)
 {
     //Check istream flags
-    if(file.bad() || file.eof())
+    if(!file.good())
         throw pe_exception("PE file stream is bad or closed.", pe_exception::bad_pe_file);
 
     //Read DOS header and check istream
     file.read(reinterpret_cast<char*>(&header), sizeof(image_dos_header));
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Unable to read IMAGE_DOS_HEADER", pe_exception::bad_dos_header);
 
     //Check DOS header magic
@@ -1044,15 +1032,12 @@ pe_type pe_base::get_pe_type() const
 pe_type pe_base::get_pe_type(std::istream& file)
 {
     //Save state of the istream
-    std::ios_base::iostate state = file.exceptions();
-    std::streamoff old_offset = file.tellg();
+    istream_state_saver saver(file);
     image_nt_headers32 nt_headers;
     image_dos_header header;
 
-    try
     {
         //Read dos header
-        file.exceptions(std::ios::goodbit);
         read_dos_header(file, header);
 
         //Seek to the NT headers start
@@ -1073,20 +1058,6 @@ pe_type pe_base::get_pe_type(std::istream& file)
         if(nt_headers.OptionalHeader.Magic != image_nt_optional_hdr32_magic && nt_headers.OptionalHeader.Magic != image_nt_optional_hdr64_magic)
             throw pe_exception("Incorrect PE signature", pe_exception::pe_signature_incorrect);
     }
-    catch(const std::exception&)
-    {
-        //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
-        file.clear();
-        //Retrhow exception
-        throw;
-    }
-
-    //Restore stream state
-    file.exceptions(state);
-    file.seekg(old_offset);
-    file.clear();
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..474bc78 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -10,18 +10,14 @@ using namespace pe_win;
 uint32_t calculate_checksum(std::istream& file)
 {
     //Save istream state
-    std::ios_base::iostate state = file.exceptions();
-    std::streamoff old_offset = file.tellg();
+    istream_state_saver saver(file);
 
     //Checksum value
     uint64_t checksum = 0;
 
-    try
     {
         image_dos_header header;
 
-        file.exceptions(std::ios::goodbit);
-
         //Read DOS header
         pe_base::read_dos_header(file, header);
 
@@ -44,6 +40,9 @@ uint32_t calculate_checksum(std::istream& file)
 
             //Read DWORD from file
             file.read(reinterpret_cast<char*>(&dw), sizeof(dw));
+            if(file.bad() || file.gcount() == 0)
+                throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
             //Skip "CheckSum" DWORD
             if(i == pe_checksum_pos)
                 continue;
@@ -61,20 +60,6 @@ uint32_t calculate_checksum(std::istream& file)
 
         checksum += static_cast<uint32_t>(filesize);
     }
-    catch(const std::exception&)
-    {
-        //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
-        file.clear();
-        //Rethrow
-        throw;
-    }
-
-    //Restore istream state
-    file.exceptions(state);
-    file.seekg(old_offset);
-    file.clear();
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
diff --git a/src/pe_lib/utils.cpp b/src/pe_lib/utils.cpp
index 5ee8117..266f358 100644
--- a/src/pe_lib/utils.cpp
+++ b/src/pe_lib/utils.cpp
@@ -22,6 +22,33 @@ std::streamoff pe_utils::get_file_size(std::istream& file)
     return filesize;
 }
 
+//Saves istream state
+istream_state_saver::istream_state_saver(std::istream& file)
+    :file_(file), mask_(file.exceptions()), offset_(-1)
+{
+    file_.exceptions(std::ios::goodbit);
+    offset_ = file_.tellg();
+}
+
+//Restores istream state
+istream_state_saver::~istream_state_saver()
+{
+    try
+    {
+        //Error flags must be cleared first, they make repositioning impossible
+        file_.clear();
+        if(offset_ != static_cast<std::streamoff>(-1))
+            file_.seekg(offset_);
+
+        file_.clear();
+        file_.exceptions(mask_);
+    }
+    catch(const std::exception&)
+    {
+        //Stream has no buffer at all and can't be restored
+    }
+}
+
 #ifndef PE_BLISS_WINDOWS
 const u16string pe_utils::to_ucs2(const std::wstring& str)
 {
diff --git a/src/pe_lib/utils.h b/src/pe_lib/utils.h
index 98b1657..d8d5685 100644
--- a/src/pe_lib/utils.h
+++ b/src/pe_lib/utils.h
@@ -79,6 +79,23 @@ private:
     pe_utils& operator=(const pe_utils&);
 };
 
+//Helper class, which remembers the position and the exception mask of input stream
+//and restores them on destruction. Stream exceptions are disabled while it is alive
+class istream_state_saver
+{
+public:
+    explicit istream_state_saver(std::istream& file);
+    ~istream_state_saver();
+
+private:
+    std::istream& file_;
+    std::ios_base::iostate mask_;
+    std::streamoff offset_;
+
+    istream_state_saver(const istream_state_saver&);
+    istream_state_saver& operator=(const istream_state_saver&);
+};
+
 //Windows GUID comparison
 bool operator==(const pe_win::guid& guid1, const pe_win::guid& guid2);
 }
-- 
2.43.0


From 42d6af7b2b49edc22e4718cb6697082080e0099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 03/83] fix: self-assignment of an image used freed properties

---
 src/pe_lib/pe_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index f3a552f..c872b76 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -78,6 +78,9 @@ pe_base::pe_base(const pe_base& pe)
 
 pe_base& pe_base::operator=(const pe_base& pe)
 {
+    //Duplicate properties first: "pe" can be this very object
+    std::unique_ptr<pe_properties> new_props(pe.props_->duplicate());
+
     dos_header_ = pe.dos_header_;
     rich_overlay_ = pe.rich_overlay_;
     sections_ = pe.sections_;
@@ -85,8 +88,7 @@ pe_base& pe_base::operator=(const pe_base& pe)
     full_headers_data_ = pe.full_headers_data_;
     debug_data_ = pe.debug_data_;
     delete props_;
-    props_ = 0;
-    props_ = pe.props_->duplicate().release();
+    props_ = new_props.release();
 
     return *this;
 }
-- 
2.43.0


From 0102fdfd87914b862624aae96a9df44c9e2d7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 04/83] fix: stale mapped view of a section after a failed
 mapping or a size change

---
 src/pe_lib/pe_section.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_section.cpp b/src/pe_lib/pe_section.cpp
index bd5079d..b817e4b 100644
--- a/src/pe_lib/pe_section.cpp
+++ b/src/pe_lib/pe_section.cpp
@@ -146,10 +146,16 @@ std::string& section::get_virtual_data(uint32_t section_alignment)
 void section::map_virtual(uint32_t section_alignment) const
 {
     uint32_t aligned_virtual_size = get_aligned_virtual_size(section_alignment);
+
+    //If sizes in header have been changed since section was mapped, map it again
+    if(old_size_ != static_cast<size_t>(-1) && aligned_virtual_size != raw_data_.length())
+        unmap_virtual();
+
     if(old_size_ == static_cast<size_t>(-1) && aligned_virtual_size && aligned_virtual_size > raw_data_.length())
     {
-        old_size_ = raw_data_.length();
+        size_t raw_size = raw_data_.length();
         raw_data_.resize(aligned_virtual_size, 0);
+        old_size_ = raw_size;
     }
 }
 
-- 
2.43.0


From a6f5e69507306338ba14c624567c526aa182b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 05/83] fix: raw data of sections with zero virtual size was
 lost on reading

---
 src/pe_lib/pe_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index c872b76..5ee60e7 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -881,7 +881,9 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
             //If section raw data size is greater than virtual, fix it
             last_raw_size = s.get_size_of_raw_data();
-            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
+            //Zero virtual size means that it is equal to raw data size
+            if(s.get_virtual_size()
+                && pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
             //Check virtual and raw section sizes and addresses
-- 
2.43.0


From e392ef24058a393ff30e62cee727aff52de3655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 06/83] fix: overlay detection looked at the wrong section

---
 src/pe_lib/pe_base.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 5ee60e7..57c4ca0 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -852,7 +852,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    //End of headers and data of all sections in file
+    std::streamoff end_of_data = get_size_of_headers();
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -880,7 +881,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             //If section has raw data
 
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
+            end_of_data = std::max(end_of_data, static_cast<std::streamoff>(s.get_pointer_to_raw_data()) + s.get_size_of_raw_data());
             //Zero virtual size means that it is equal to raw data size
             if(s.get_virtual_size()
                 && pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
@@ -947,7 +948,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > end_of_data;
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From 58dd513241a23139c7815c17230ce0f26f6d52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 07/83] fix: last bytes of headers could not be read by address

---
 src/pe_lib/pe_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index 5642147..b340824 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -388,7 +388,7 @@ public: //IMAGE SECTIONS
     T section_data_from_rva(uint32_t rva, section_data_type datatype = section_data_raw, bool include_headers = false) const
     {
         //if RVA is inside of headers and we're searching them too...
-        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) < full_headers_data_.length()))
+        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) <= full_headers_data_.length()))
             return *reinterpret_cast<const T*>(&full_headers_data_[rva]);
 
         const section& s = section_from_rva(rva);
-- 
2.43.0


From 981a3163b0465abebba48205c153e9ad834b24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 08/83] fix: directory lookup read outside the table when it
 has no entries

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..a842206 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 3cf60b41fadf760aaf5cf1f7523d7b325383a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 09/83] fix: refuse more data directories than the table can
 hold

---
 src/pe_lib/pe_properties_generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index a842206..abd2ab8 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -324,6 +324,10 @@ uint32_t pe_properties_generic<PEClassType>::get_number_of_rvas_and_sizes() cons
 template<typename PEClassType>
 void pe_properties_generic<PEClassType>::set_number_of_rvas_and_sizes(uint32_t number)
 {
+    //Data directory table has only 16 entries
+    if(number > image_numberof_directory_entries)
+        throw pe_exception("Incorrect number of data directories", pe_exception::incorrect_number_of_rva_and_sizes);
+
     nt_headers_.OptionalHeader.NumberOfRvaAndSizes = number;
 }
 
-- 
2.43.0


From 89fd0c1a2dbc5b0cef2e4093d26b51e8530146c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 10/83] fix: stripping data directories left one entry less
 than requested

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index abd2ab8..3628b72 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -127,7 +127,7 @@ uint32_t pe_properties_generic<PEClassType>::strip_data_directories(uint32_t min
         if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
             break;
 
-        if(i <= static_cast<int>(min_count) - 2)
+        if(static_cast<uint32_t>(i) < min_count)
             break;
     }
 
-- 
2.43.0


From e6cf05650b0ebfbd53e64fdfde9ebb4e8e87164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 11/83] fix: rebuilding read past the end of section data

---
 src/pe_lib/pe_rebuilder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..848130e 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_rebuilder.h"
 #include "pe_base.h"
 #include "pe_structures.h"
@@ -164,8 +165,12 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
             out.put(0);
 
-        //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        //Write raw section data (header size can be aligned up and be greater than the size of data)
+        const std::string& raw_data = s.get_raw_data();
+        uint32_t data_size = static_cast<uint32_t>(std::min<size_t>(raw_data.length(), s.get_size_of_raw_data()));
+        out.write(raw_data.data(), data_size);
+        for(; data_size != s.get_size_of_raw_data(); ++data_size)
+            out.put('\0');
     }
 }
 }
-- 
2.43.0


From 7d9bfdacd753ebde8a14f2a93aeb780b132e901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 12/83] fix: sections without raw data misplaced the data of
 the following ones

---
 src/pe_lib/pe_rebuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 848130e..b3e710a 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -159,6 +159,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         const section& s = *it;
 
+        //Section without raw data has no place in file, its pointer to raw data is meaningless
+        if(!s.get_size_of_raw_data())
+            continue;
+
         std::streamoff wpos = out.tellp();
 
         //Fill unused overlay data between sections with null bytes
-- 
2.43.0


From c26abfaaf2a12a001c6ead11882b69786d6fb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 13/83] fix: bound import directory in headers was lost for the
 image object after rebuilding

---
 src/pe_lib/pe_rebuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index b3e710a..4905edc 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -102,7 +102,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     out.clear();
     
     uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva > pe.get_size_of_headers())
+    if(original_bound_import_rva && original_bound_import_rva >= pe.get_full_headers_data().length())
     {
         //No need to do anything with bound import directory
         //if it is placed inside of any section, not headers
@@ -152,6 +152,9 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
             pe.get_directory_size(image_directory_entry_bound_import));
+
+        //Headers data of the image itself was not changed, directory is still at its old place there
+        pe.set_directory_rva(image_directory_entry_bound_import, original_bound_import_rva);
     }
 
     //Write section data finally
-- 
2.43.0


From 434b6a62091465ed0564a842436545391ec8c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 14/83] fix: image size was wrong after adding the first
 section or expanding raw data of the last one

---
 src/pe_lib/pe_base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 57c4ca0..a0287d7 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -482,7 +482,7 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     //Set number of sections in PE header
     set_number_of_sections(static_cast<uint16_t>(sections_.size()));
     //Recalculate virtual size of image
-    set_size_of_image(get_size_of_image() + s.get_aligned_virtual_size(get_section_alignment()));
+    update_image_size();
     //Return last section
     return sections_.back();
 }
@@ -1567,6 +1567,10 @@ void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
     //Can occur only for last section
     if(pe_utils::align_up(s.get_virtual_size(), get_section_alignment()) < pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()))
         set_section_virtual_size(s, pe_utils::align_up(s.get_size_of_raw_data(), get_section_alignment())); //Recalculate section virtual size
+
+    //Virtual size of the last section could have been changed above
+    if(!sections_.empty() && &s == &sections_.back())
+        update_image_size();
 }
 
 //Returns data from the beginning of image
-- 
2.43.0


From ea1d0f193dfd8d57ede9e296ae21e40b51645f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 15/83] fix: free sections could not be resized for an image
 without sections

---
 src/pe_lib/pe_base.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index a0287d7..f4e6cfe 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -328,7 +328,7 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
 {
     //Check if we're changing virtual size of the last section
     //Of course, we can change virtual size of section that's not bound to this PE file
-    if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
+    if(!sections_.empty() && std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't change virtual size of any section, except last one", pe_exception::error_changing_section_virtual_size);
 
     //If we're setting virtual size to zero
@@ -347,7 +347,7 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
     }
 
     //Update image size if we're changing virtual size for the last section of this PE
-    if(!sections_.empty() || &s == &(*(sections_.end() - 1)))
+    if(!sections_.empty() && &s == &sections_.back())
         update_image_size();
 }
 
@@ -358,7 +358,7 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
 {
     //Check if we're changing the last section
     //Of course, we can change the section that's not bound to this PE file
-    if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
+    if(!sections_.empty() && std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
 
     //Check if we should expand our section
-- 
2.43.0


From 0fa22174003ab483410a0313ed929c4a08d79eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 16/83] fix: expanding a section by a huge size could shrink
 its data

---
 src/pe_lib/pe_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index f4e6cfe..91f87b0 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -362,6 +362,9 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
         throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
 
     //Check if we should expand our section
+    if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size))
+        throw pe_exception("Too much data is requested", pe_exception::error_expanding_section);
+
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
         //Expand section raw data
-- 
2.43.0


From b921cb359ba0f0e03ad758f69a53694bf8120790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 17/83] fix: address conversions truncated addresses that do
 not fit the image's width

---
 src/pe_lib/pe_properties_generic.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 3628b72..6bc1afd 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -501,7 +501,7 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint32_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_check) const
 {
-    if(bound_check && va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword)
+    if(bound_check && (va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword || static_cast<typename PEClassType::BaseSize>(va) != va))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(va - nt_headers_.OptionalHeader.ImageBase);
@@ -511,7 +511,8 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 {
-    if(!pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
+    if(static_cast<uint64_t>(nt_headers_.OptionalHeader.ImageBase) > pe_utils::max_dword
+        || !pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(rva + nt_headers_.OptionalHeader.ImageBase);
@@ -521,7 +522,11 @@ uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 template<typename PEClassType>
 uint64_t pe_properties_generic<PEClassType>::rva_to_va_64(uint32_t rva) const
 {
-    return static_cast<uint64_t>(rva) + nt_headers_.OptionalHeader.ImageBase;
+    typename PEClassType::BaseSize va = static_cast<typename PEClassType::BaseSize>(nt_headers_.OptionalHeader.ImageBase + rva);
+    if(va < nt_headers_.OptionalHeader.ImageBase)
+        throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
+
+    return va;
 }
 
 //Returns number of sections
-- 
2.43.0


From 700647707ac6ddf062018f6a3eb5f9be8d5f6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 18/83] fix: sections leaving the 32-bit address space were
 accepted and broke the section table

---
 src/pe_lib/pe_base.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 91f87b0..9396345 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -331,6 +331,11 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
     if(!sections_.empty() && std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't change virtual size of any section, except last one", pe_exception::error_changing_section_virtual_size);
 
+    //Section must not leave 32-bit relative address space
+    if(vsize > pe_utils::two_gb
+        || static_cast<uint64_t>(s.get_virtual_address()) + pe_utils::align_up(vsize, get_section_alignment()) > 0xFFFFFFFFu)
+        throw pe_exception("Incorrect section address or size", pe_exception::error_changing_section_virtual_size);
+
     //If we're setting virtual size to zero
     if(vsize == 0)
     {
@@ -431,6 +436,10 @@ void pe_base::set_machine(uint16_t machine)
 //Prepares section before attaching it
 void pe_base::prepare_section(section& s)
 {
+    //Sections larger than two gigabytes are not supported
+    if(s.get_raw_data().length() > pe_utils::two_gb || s.get_virtual_size() > pe_utils::two_gb)
+        throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
     //Calculate its size of raw data
     s.set_size_of_raw_data(static_cast<uint32_t>(pe_utils::align_up(s.get_raw_data().length(), get_file_alignment())));
 
@@ -462,23 +471,25 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     prepare_section(s);
 
     //Calculate section virtual address
+    uint64_t address = sections_.empty()
+        ? (s.get_virtual_address() == 0 ? get_size_of_headers() : s.get_virtual_address())
+        : static_cast<uint64_t>(sections_.back().get_virtual_address()) + sections_.back().get_aligned_virtual_size(get_section_alignment());
+    address = pe_utils::align_up(address, get_section_alignment());
+
+    //Section must not leave 32-bit relative address space
+    if(address + s.get_aligned_virtual_size(get_section_alignment()) > 0xFFFFFFFFu)
+        throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
+    s.set_virtual_address(static_cast<uint32_t>(address));
+
     if(!sections_.empty())
     {
-        s.set_virtual_address(pe_utils::align_up(sections_.back().get_virtual_address() + sections_.back().get_aligned_virtual_size(get_section_alignment()), get_section_alignment()));
-
         //We should align last section raw size, if it wasn't aligned
         section& last = sections_.back();
 
         if (autoupdate)
             last.set_size_of_raw_data(static_cast<uint32_t>(pe_utils::align_up(last.get_raw_data().length(), get_file_alignment())));
     }
-    else
-    {
-        s.set_virtual_address(
-            s.get_virtual_address() == 0
-            ? pe_utils::align_up(get_size_of_headers(), get_section_alignment())
-            : pe_utils::align_up(s.get_virtual_address(), get_section_alignment()));
-    }
 
     //Add section to the end of section list
     sections_.push_back(s);
-- 
2.43.0


From e3b5c021089e9d38186bc9e2edbe2cdc13046800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 19/83] fix: realigning the last section changed the size of
 the image if its virtual size was zero

---
 src/pe_lib/pe_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 9396345..9cb6736 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -203,6 +203,10 @@ void pe_base::realign_section(uint32_t index)
 
     if(it == sections_.end() - 1) //If we're realigning the last section
     {
+        //Zero virtual size means that it is equal to raw data size, keep it
+        if(!s.get_virtual_size())
+            s.set_virtual_size(s.get_size_of_raw_data());
+
         //We can strip ending null bytes
         s.set_size_of_raw_data(static_cast<uint32_t>(s.get_raw_data().length() - strip));
         s.get_raw_data().resize(s.get_raw_data().length() - strip, 0);
-- 
2.43.0


From b4a1847696700bf604f75e1a0f28412e67bea621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 20/83] fix: expanding a section beyond the 32-bit address
 space was accepted

---
 src/pe_lib/pe_base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 9cb6736..5c715cd 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -374,6 +374,11 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
     if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size))
         throw pe_exception("Too much data is requested", pe_exception::error_expanding_section);
 
+    //Section must not leave 32-bit relative address space
+    uint64_t new_size = static_cast<uint64_t>(needed_rva - s.get_virtual_address()) + needed_size;
+    if(new_size > pe_utils::two_gb || s.get_virtual_address() + pe_utils::align_up(new_size, get_section_alignment()) > 0xFFFFFFFFu)
+        throw pe_exception("Too much data is requested", pe_exception::error_expanding_section);
+
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
         //Expand section raw data
-- 
2.43.0


From d2de9141682dde1250641632145948b2bf1f1ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 21/83] fix: functions imported by ordinal overwrote each other
 when original IAT is not built

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..7cdd434 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -656,6 +656,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From efb55920fb2571d0d4530499b1f808b8f021e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 22/83] fix: imported functions were lost when filling missing
 original IATs without building them

---
 src/pe_lib/pe_imports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7cdd434..7a3bd95 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -486,7 +486,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         //If we should save IAT for current import descriptor
         bool save_iats_for_this_descriptor = import_settings.save_iat_and_original_iat_rvas() && (*it).get_rva_to_iat() != 0;
         //If we should write original IAT
-        bool write_original_iat = (!save_iats_for_this_descriptor && import_settings.build_original_iat()) || import_settings.fill_missing_original_iats();
+        bool write_original_iat = import_settings.build_original_iat() && (!save_iats_for_this_descriptor || import_settings.fill_missing_original_iats());
 
         //If we should rewrite saved original IAT for current import descriptor (without changing its position)
         bool rewrite_saved_original_iat = save_iats_for_this_descriptor && import_settings.rewrite_iat_and_original_iat_contents() && import_settings.build_original_iat();
-- 
2.43.0


From fea8c32fa59524875d7ca20ab6ae10765feb5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 23/83] fix: rebuilding imports dropped section data following
 the directory

---
 src/pe_lib/pe_imports.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7a3bd95..7d628c1 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <algorithm>
 #include "pe_imports.h"
 #include "pe_properties_generic.h"
 
@@ -460,6 +461,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
     std::string& raw_data = import_section.get_raw_data();
+    const std::size_t old_length = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -734,7 +736,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Never strip data which was in the section before
+    raw_data.resize(std::max<std::size_t>(current_pos_for_original_iat, old_length));
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From d40ccc977fc7fed42ad836428647d8301f1b1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 24/83] fix: import tables ending exactly at the end of section
 data could not be rewritten

---
 src/pe_lib/pe_imports.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7d628c1..f2cf279 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -557,7 +557,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -575,7 +575,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write to IAT RVA of IMAGE_IMPORT_BY_NAME
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -594,7 +594,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -630,7 +630,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         typename PEClassType::BaseSize iat_value = static_cast<typename PEClassType::BaseSize>((*f).get_iat_va());
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -648,7 +648,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write ordinal to IAT
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -668,7 +668,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -691,7 +691,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_iat)
             {
-                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -712,7 +712,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_original_iat)
             {
-                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
-- 
2.43.0


From d5185b132269b246fc1bad10e909af134d6eaf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 25/83] fix: directories placed at huge section offsets
 overwrote other section data

---
 src/pe_lib/pe_base.cpp         | 17 +++++++++++++++++
 src/pe_lib/pe_base.h           |  3 +++
 src/pe_lib/pe_bound_import.cpp |  4 ++++
 src/pe_lib/pe_exports.cpp      |  4 ++++
 src/pe_lib/pe_imports.cpp      |  4 ++++
 src/pe_lib/pe_load_config.cpp  |  4 ++++
 src/pe_lib/pe_relocations.cpp  |  4 ++++
 src/pe_lib/pe_resources.cpp    |  4 ++++
 src/pe_lib/pe_tls.cpp          |  4 ++++
 9 files changed, 48 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 5c715cd..444ad2a 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1561,6 +1561,23 @@ void pe_base::realign_file(uint32_t new_file_alignment)
     realign_all_sections();
 }
 
+//Returns true if "size" bytes of data can be placed to attached section "s"
+//at "offset" from its start (last section can be expanded for that)
+bool pe_base::section_can_hold_data(const section& s, uint32_t offset, uint32_t size) const
+{
+    //Data end position inside section, aligned the way sections are expanded
+    const uint64_t alignment = std::max<uint32_t>(get_section_alignment(), get_file_alignment());
+    const uint64_t end = (static_cast<uint64_t>(offset) + size + sizeof(uint64_t) /* alignment of data */ + alignment - 1) / alignment * alignment;
+
+    //Sections larger than two gigabytes or leaving 32-bit relative address space are not supported
+    if(end > pe_utils::two_gb || s.get_virtual_address() + end > pe_utils::max_dword)
+        return false;
+
+    //Virtual size of the last section only can be changed
+    return sections_.empty() || &s == &sections_.back()
+        || s.get_aligned_virtual_size(get_section_alignment()) >= pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment());
+}
+
 //Helper function to recalculate RAW and virtual section sizes and strip it, if necessary
 void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
 {
diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index b340824..1748e11 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -458,6 +458,9 @@ public: //IMAGE SECTIONS
 
     //Returns true if sectios "s" is already attached to this PE file
     bool section_attached(const section& s) const;
+    //Returns true if "size" bytes of data can be placed to attached section "s"
+    //at "offset" from its start (last section can be expanded for that)
+    bool section_can_hold_data(const section& s, uint32_t offset, uint32_t size) const;
 
 
 public: //IMAGE
diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..a9960a4 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -227,6 +227,10 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     
     needed_size += needed_size_for_strings;
     
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(imports_section, offset_from_section_start, needed_size))
+        throw pe_exception("Insufficient space for bound import directory", pe_exception::insufficient_space);
+
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
     if(&imports_section != &*(pe.get_image_sections().end() - 1) && 
         (imports_section.empty() || pe_utils::align_up(imports_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + directory_pos))
diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..8070879 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -551,6 +551,10 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size += needed_size_for_strings; //For all strings
     needed_size += needed_size_for_function_name_rvas; //For function name strings RVAs
 
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(exports_section, offset_from_section_start, needed_size))
+        throw pe_exception("Insufficient space for export directory", pe_exception::insufficient_space);
+
     //Check if exports_section is last one. If it's not, check if there's enough place for exports data
     if(&exports_section != &*(pe.get_image_sections().end() - 1) && 
         (exports_section.empty() || pe_utils::align_up(exports_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + directory_pos))
diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index f2cf279..fae6faa 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -455,6 +455,10 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
     //Total needed size for import structures and strings
     needed_size += needed_size_for_strings;
 
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(import_section, import_settings.get_offset_from_section_start(), needed_size))
+        throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
+
     //Check if import_section is last one. If it's not, check if there's enough place for import data
     if(&import_section != &*(pe.get_image_sections().end() - 1) && 
         (import_section.empty() || pe_utils::align_up(import_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + import_settings.get_offset_from_section_start()))
diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..85f3e86 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -412,6 +412,10 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
         needed_size += static_cast<uint32_t>((info.get_lock_prefix_rvas().size() + 1) * sizeof(typename PEClassType::BaseSize)); //VAs of Lock Prefixes (and ending null element)
     }
 
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(image_config_section, offset_from_section_start, needed_size))
+        throw pe_exception("Insufficient space for load config directory", pe_exception::insufficient_space);
+
     //Check if image_config_section is last one. If it's not, check if there's enough place for Image Config data
     if(&image_config_section != &*(pe.get_image_sections().end() - 1) && 
         (image_config_section.empty() || pe_utils::align_up(image_config_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + image_config_data_pos))
diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..a6cc3c5 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -190,6 +190,10 @@ const image_directory rebuild_relocations(pe_base& pe, const relocation_table_li
             needed_size += sizeof(uint16_t); //Align it with IMAGE_REL_BASED_ABSOLUTE relocation
     }
 
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(reloc_section, offset_from_section_start, needed_size))
+        throw pe_exception("Insufficient space for relocations directory", pe_exception::insufficient_space);
+
     //Check if reloc_section is last one. If it's not, check if there's enough place for relocations data
     if(&reloc_section != &*(pe.get_image_sections().end() - 1) && 
         (reloc_section.empty() || pe_utils::align_up(reloc_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + current_reloc_data_pos))
diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..4a4f3f6 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -596,6 +596,10 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
 
     uint32_t needed_size = needed_size_for_structures + needed_size_for_strings + needed_size_for_data;
 
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(resources_section, offset_from_section_start, needed_size))
+        throw pe_exception("Insufficient space for resource directory", pe_exception::insufficient_space);
+
     //Check if resources_section is last one. If it's not, check if there's enough place for resource data
     if(&resources_section != &*(pe.get_image_sections().end() - 1) && 
         (resources_section.empty() || pe_utils::align_up(resources_section.get_size_of_raw_data(), pe.get_file_alignment())
diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..297bb7c 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -235,6 +235,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     uint32_t tls_data_pos = pe_utils::align_up(offset_from_section_start, sizeof(typename PEClassType::BaseSize));
     uint32_t needed_size = sizeof(typename PEClassType::TLSStruct); //Calculate needed size for TLS table
     
+    //Check that data does not leave address space of the section
+    if(!pe.section_can_hold_data(tls_section, offset_from_section_start, needed_size))
+        throw pe_exception("Insufficient space for TLS directory", pe_exception::insufficient_space);
+
     //Check if tls_section is last one. If it's not, check if there's enough place for TLS data
     if(&tls_section != &*(pe.get_image_sections().end() - 1) && 
         (tls_section.empty() || pe_utils::align_up(tls_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + tls_data_pos))
-- 
2.43.0


From 80b99e1150c15ab8e3b7d2d46b92fa253b9f5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 26/83] fix: forwarding of functions exported by ordinal only
 was not recognized

---
 src/pe_lib/pe_exports.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 8070879..c47f9f3 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,27 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            //Functions exported by ordinal only can be redirected, too
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From 3d8c5c297a900122115a3273020306af2d9d0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 27/83] fix: rebuilding empty export list wrote functions which
 do not exist

---
 src/pe_lib/pe_exports.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index c47f9f3..d343d4a 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -538,7 +538,8 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    uint32_t number_of_functions = exports.empty() ? 0 : max_ordinal - ordinal_base + 1;
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -585,7 +586,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From 771144b3e06400bc54e9f1b10b61519735be1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 28/83] fix: TLS zero fill size was lost if there is no TLS raw
 data

---
 src/pe_lib/pe_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 297bb7c..576438b 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -262,7 +262,6 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     {
         pe.rva_to_va(info.get_raw_data_start_rva(), va);
         tls_struct.StartAddressOfRawData = va;
-        tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     }
 
     if(info.get_raw_data_end_rva())
@@ -280,6 +279,7 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         tls_struct.AddressOfCallBacks = va;
     }
 
+    tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     tls_struct.Characteristics = info.get_characteristics();
 
     //Save TLS structure
-- 
2.43.0


From fc12aa3bb2a7047c2e3ad0b8bbc450e3e93c92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 29/83] fix: rebuilding TLS read past the end of raw data
 string

---
 src/pe_lib/pe_tls.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 576438b..faffc10 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -316,7 +316,12 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
 
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
-            memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
+        {
+            //Raw data string may be shorter than the place for it
+            std::string tls_raw_data(info.get_raw_data(), 0, write_raw_data_size);
+            tls_raw_data.resize(write_raw_data_size);
+            memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), tls_raw_data.data(), write_raw_data_size);
+        }
     }
 
     //If we are asked to rewrite TLS callbacks addresses
-- 
2.43.0


From 01c92b3e10ecf1c96c37a65ee765c94280e49401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 30/83] fix: rebuilding TLS callbacks wrote past the end of
 section raw data

---
 src/pe_lib/pe_tls.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index faffc10..6fe0e62 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -363,8 +363,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
 
-        //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        //Write callbacks TLS data (last zero element can be virtual only)
+        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0],
+            std::min<uint32_t>(needed_callback_size, pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)));
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From f2ca16fcdf4aebd91de7a201c206935af48805c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 31/83] fix: load config directory could not be read from
 headers or zero-filled end of section

---
 src/pe_lib/pe_load_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 85f3e86..6edc302 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -343,7 +343,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         throw pe_exception("Image does not have load config directory", pe_exception::directory_does_not_exist);
 
     //Get load config structure
-    typename PEClassType::ConfigStruct config_info = pe.section_data_from_rva<typename PEClassType::ConfigStruct>(pe.get_directory_rva(image_directory_entry_load_config), section_data_virtual);
+    typename PEClassType::ConfigStruct config_info = pe.section_data_from_rva<typename PEClassType::ConfigStruct>(pe.get_directory_rva(image_directory_entry_load_config), section_data_virtual, true);
 
     //Check size of config directory
     if(config_info.Size < sizeof(config_info))
-- 
2.43.0


From c526843fb4e5ec47ac6294c9966638b5224adf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 32/83] fix: load config tables could not be read from headers
 or zero-filled end of section

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 6edc302..762b0f8 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual, true));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual, true);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 358e03a82dde1293343d5872647ff87c1a262a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 33/83] fix: bound import directory was not terminated when
 written over existing data

---
 src/pe_lib/pe_bound_import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index a9960a4..64b5614 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -277,6 +277,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From 4bc04b79dc945f1637803beb7780b9a7723703f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 34/83] fix: bound import directories which can not be
 represented were written truncated

---
 src/pe_lib/pe_bound_import.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 64b5614..3a00051 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -209,22 +209,32 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size = sizeof(image_bound_import_descriptor) /* Ending null descriptor */;
     uint32_t needed_size_for_strings = 0;
+    uint32_t last_string_pos = 0;
 
     //Calculate needed size for bound import data
     for(bound_import_module_list::const_iterator it = imports.begin(); it != imports.end(); ++it)
     {
         const bound_import& import = *it;
         needed_size += sizeof(image_bound_import_descriptor);
+        last_string_pos = needed_size_for_strings;
         needed_size_for_strings += static_cast<uint32_t>((*it).get_module_name().length()) + 1 /* nullbyte */;
 
         const bound_import::ref_list& refs = import.get_module_ref_list();
+        if(refs.size() > pe_utils::max_word)
+            throw pe_exception("Too many bound import module references", pe_exception::incorrect_bound_import_directory);
+
         for(bound_import::ref_list::const_iterator ref_it = refs.begin(); ref_it != refs.end(); ++ref_it)
         {
+            last_string_pos = needed_size_for_strings;
             needed_size_for_strings += static_cast<uint32_t>((*ref_it).get_module_name().length()) + 1 /* nullbyte */;
             needed_size += sizeof(image_bound_forwarder_ref);
         }
     }
     
+    //Module names are referenced by 16-bit offsets from directory start
+    if(needed_size + last_string_pos > pe_utils::max_word)
+        throw pe_exception("Bound import directory is too large", pe_exception::incorrect_bound_import_directory);
+
     needed_size += needed_size_for_strings;
     
     //Check that data does not leave address space of the section
-- 
2.43.0


From 570f72ba6f3b4d5d397d35b36ff92727e2ccc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 35/83] fix: bound import directory could not be read if its
 end is zero-filled

---
 src/pe_lib/pe_bound_import.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 3a00051..7791c21 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -115,12 +115,12 @@ const bound_import_module_list get_bound_import_module_list(const pe_base& pe)
         return ret;
 
     uint32_t bound_import_data_len =
-        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     if(bound_import_data_len < pe.get_directory_size(image_directory_entry_bound_import))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     
-    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     //Check read in "read_pe" function raw bound import data size
     if(bound_import_data_len < sizeof(image_bound_import_descriptor))
-- 
2.43.0


From 8342ec34aa118aaf2771c75a84b855956f069581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 36/83] fix: empty relocation directory was read past its end

---
 src/pe_lib/pe_relocations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index a6cc3c5..7cef226 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -109,6 +109,10 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     if(!pe.has_reloc())
         return ret;
 
+    //If list of relocations is empty
+    if(!pe.get_directory_size(image_directory_entry_basereloc))
+        return ret;
+
     //Check the length in bytes of the section containing relocation directory
     if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_basereloc),
         pe.get_directory_rva(image_directory_entry_basereloc), section_data_virtual, true)
-- 
2.43.0


From 50e87a20f947750e9926d83f03577a72666a7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 37/83] fix: rebasing changed locations with a wrong width for
 some relocation types

---
 src/pe_lib/pe_relocations.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 7cef226..fc846d0 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -265,6 +265,15 @@ void rebase_image(pe_base& pe, const relocation_table_list& tables, uint64_t new
         : rebase_image_base<pe_types_class_64>(pe, tables, new_base);
 }
 
+//Adds difference to the value, which is located at supplied RVA
+template<typename T>
+void relocate_value(pe_base& pe, uint32_t rva, uint64_t difference)
+{
+    T value = pe.section_data_from_rva<T>(rva, section_data_raw, true);
+    value = static_cast<T>(value + difference);
+    memcpy(pe.section_data_from_rva(rva, true), &value, sizeof(value));
+}
+
 //RELOCATIONS
 //Recalculates image base with the help of relocation tables
 //Recalculates VAs of DWORDS/QWORDS in image according to relocations
@@ -279,7 +288,7 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
     pe.get_image_base(image_base);
 
     //ImageBase difference
-    typename PEClassType::BaseSize base_rel = static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);
+    uint64_t base_rel = static_cast<uint64_t>(static_cast<typename PEClassType::BaseSize>(new_base)) - image_base;
 
     //We need to fix addresses from relocation tables
     //Enumerate relocation tables
@@ -298,9 +307,27 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
             
             //Recalculate value by RVA and rewrite it
             uint32_t current_rva = base_rva + (*rel).get_rva();
-            typename PEClassType::BaseSize value = pe.section_data_from_rva<typename PEClassType::BaseSize>(current_rva, section_data_raw, true);
-            value += base_rel;
-            memcpy(pe.section_data_from_rva(current_rva, true), &value, sizeof(value));
+            switch((*rel).get_type())
+            {
+            case pe_win::image_rel_based_high:
+                relocate_value<uint16_t>(pe, current_rva, base_rel >> 16);
+                break;
+
+            case pe_win::image_rel_based_low:
+                relocate_value<uint16_t>(pe, current_rva, base_rel);
+                break;
+
+            case pe_win::image_rel_based_highlow:
+                relocate_value<uint32_t>(pe, current_rva, base_rel);
+                break;
+
+            case pe_win::image_rel_based_dir64:
+                relocate_value<uint64_t>(pe, current_rva, base_rel);
+                break;
+
+            default:
+                throw pe_exception("Unsupported relocation type", pe_exception::incorrect_relocation_directory);
+            }
         }
     }
 
-- 
2.43.0


From eff342d8ceb6b73842e3c228f41247ae49ebb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 38/83] fix: reading names of resource entries could go past
 the end of section data

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 4a4f3f6..ba3b82e 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -367,7 +367,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < directory_name_length * sizeof(uint16_t))
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From 2c252a8e5774eccb3d549f5cf385089351e69530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 39/83] fix: deeply nested resource directories exhausted the
 stack

---
 src/pe_lib/pe_resources.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index ba3b82e..91c14e0 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -320,10 +320,17 @@ void resource_directory::get_minor_version(uint16_t minor_version)
     minor_version_ = minor_version;
 }
 
+//Maximum nesting level of resource directories (three levels are used: type, name and language)
+static const uint32_t maximum_resource_directory_level = 256;
+
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t level = 0)
 {
     resource_directory ret;
+
+    //Check nesting level, directories are processed recursively
+    if(level >= maximum_resource_directory_level)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
     
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
@@ -392,7 +399,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, level + 1));
         }
         else
         {
-- 
2.43.0


From 5f55d2689a2d69da823fbed7b7ee9cf7d8919292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 40/83] fix: resource trees which can not be represented were
 written damaged

---
 src/pe_lib/pe_resources.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 91c14e0..512756f 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -428,11 +428,21 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 //Helper function to calculate needed space for resource data
 void calculate_resource_data_space(const resource_directory& root, uint32_t aligned_offset_from_section_start, uint32_t& needed_size_for_structures, uint32_t& needed_size_for_strings)
 {
+    uint32_t number_of_named_entries = 0, number_of_id_entries = 0;
+
     needed_size_for_structures += sizeof(image_resource_directory);
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
         needed_size_for_structures += sizeof(image_resource_directory_entry);
 
+        //Check that entry can be represented: name length is 16-bit, ID is 31-bit
+        if((*it).is_named() ? (*it).get_name().length() > pe_utils::max_word : ((*it).get_id() & 0x80000000) != 0)
+            throw pe_exception("Incorrect resource directory entry", pe_exception::incorrect_resource_directory);
+
+        //Numbers of entries are 16-bit
+        if(((*it).is_named() ? ++number_of_named_entries : ++number_of_id_entries) > pe_utils::max_word)
+            throw pe_exception("Too many resource directory entries", pe_exception::incorrect_resource_directory);
+
         if((*it).is_named())
             needed_size_for_strings += static_cast<uint32_t>(((*it).get_name().length() + 1) * 2 /* unicode */ + sizeof(uint16_t) /* for string length */);
 
-- 
2.43.0


From c78b3ece96115eb48e18ba367ac4c86c969912ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 41/83] fix: assigning a resource entry to itself or to its
 parent lost its contents

---
 src/pe_lib/pe_resources.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 512756f..7426d2a 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,21 +68,14 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
-
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    //Source can be this entry or a part of it, so copy it first
+    resource_directory_entry copy(other);
+
+    std::swap(id_, copy.id_);
+    name_.swap(copy.name_);
+    std::swap(ptr_, copy.ptr_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
 
     return *this;
 }
-- 
2.43.0


From 3b7585b0835a01a38e69842cfc6f7ac6442934b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 42/83] fix: setting contents of a resource entry to a part of
 the same entry used freed data

---
 src/pe_lib/pe_resources.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 7426d2a..bea1c2a 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -182,16 +182,20 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    //Source can be a part of this entry, so copy it first
+    resource_data_entry* data = new resource_data_entry(entry);
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    //Source can be a part of this entry, so copy it first
+    resource_directory* new_dir = new resource_directory(dir);
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = new_dir;
     includes_data_ = false;
 }
 
-- 
2.43.0


From 474454e35e1e99aee0de46feff4c8101330a4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 43/83] fix: writing resources could go past the end of section
 data because of changed entry order

---
 src/pe_lib/pe_resources.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index bea1c2a..a25dbc2 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -475,6 +475,19 @@ public:
     bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
 };
 
+//Helper function to sort entries of resource directory and of all its subdirectories
+void sort_resource_directory(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directory((*it).get_resource_directory());
+    }
+}
+
 //Helper function to rebuild resource directory
 void rebuild_resource_directory(pe_base& pe, section& resource_section, resource_directory& root, uint32_t& current_structures_pos, uint32_t& current_data_pos, uint32_t& current_strings_pos, uint32_t offset_from_section_start)
 {
@@ -485,11 +498,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
     
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
-
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
@@ -603,6 +611,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
 
     calculate_resource_data_space(info, aligned_offset_from_section_start, needed_size_for_structures, needed_size_for_strings);
 
+    //Entries must be sorted before space for data is calculated, because data alignment depends on their order
+    sort_resource_directory(info);
+
     {
         uint32_t current_data_pos = aligned_offset_from_section_start + needed_size_for_structures + needed_size_for_strings;
         calculate_resource_data_space(info, needed_size_for_structures, needed_size_for_strings, needed_size_for_data, current_data_pos);
-- 
2.43.0


From f89b771782b5953c5aa57724eb2adb029b43616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 44/83] fix: upper half of 32-bit resource identifiers was lost
 on reading

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index a25dbc2..3961697 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -389,7 +389,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         else
         {
             //Else - set directory ID
-            entry.set_id(dir_entry.NameItem.Id);
+            entry.set_id(dir_entry.NameItem.Name);
         }
 
         //If directory entry has another resource directory
-- 
2.43.0


From 758c3a5b3f88c648193fad7f4b39b2649c50d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 45/83] fix: image with bound imports at the stripped end of a
 section could not be written

---
 src/pe_lib/pe_rebuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 4905edc..88b8e75 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -90,7 +90,9 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     if(out.bad())
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
-    if(save_bound_import && pe.has_bound_import())
+    //Only the directory placed in headers is moved and must be available, directory inside of a section is written with that section
+    if(save_bound_import && pe.has_bound_import()
+        && pe.get_directory_rva(image_directory_entry_bound_import) < pe.get_full_headers_data().length())
     {
         if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true)
             < pe.get_directory_size(image_directory_entry_bound_import))
-- 
2.43.0


From b8b574dd9f1ec343b2824e61c121c2cf84a2d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 46/83] fix: empty resource data at the end of a section could
 not be read

---
 src/pe_lib/pe_resources.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 3961697..a533f94 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -404,14 +404,19 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
 
-            //Check byte count that stated by data entry
-            if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
-                throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+            //Empty data can be placed right at the end of section
+            std::string data;
+            if(data_entry.Size)
+            {
+                //Check byte count that stated by data entry
+                if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
+                    throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
+                data.assign(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size);
+            }
 
             //Add data entry to directory entry
-            entry.add_data_entry(resource_data_entry(
-                std::string(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size),
-                data_entry.CodePage));
+            entry.add_data_entry(resource_data_entry(data, data_entry.CodePage));
         }
 
         //Save directory entry
-- 
2.43.0


From c800926a955ebd88fb68f981c4b188ecef467bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 47/83] fix: functions following a zero value in import address
 table were lost

---
 src/pe_lib/pe_imports.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index fae6faa..1c53159 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -326,7 +326,8 @@ const imported_functions_list get_imported_functions_base(const pe_base& pe)
             current_original_thunk_rva = current_thunk_rva;
 
         //List all imported functions for current DLL
-        if(import_lookup_table != 0 && import_address_table != 0)
+        //Lookup table determines the end of the list, values of bound IAT can be zero
+        if(import_lookup_table != 0)
         {
             while(true)
             {
@@ -338,10 +339,6 @@ const imported_functions_list get_imported_functions_base(const pe_base& pe)
                 //Move pointer
                 current_thunk_rva += sizeof(typename PEClassType::BaseSize);
 
-                //Jump to next DLL if we finished with this one
-                if(!address)
-                    break;
-
                 func.set_iat_va(address);
 
                 //Get VA from original IAT
-- 
2.43.0


From d7aad5367655559afab97e4337850111817c4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 48/83] fix: TLS directory with empty raw data at the end of a
 section could not be read

---
 src/pe_lib/pe_tls.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 6fe0e62..4fe0e7b 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -172,6 +172,8 @@ const tls_info get_tls_info_base(const pe_base& pe)
     }
 
     if(tls_directory_data.StartAddressOfRawData &&
+        //Empty data can be placed right at the end of section
+        tls_directory_data.StartAddressOfRawData != tls_directory_data.EndAddressOfRawData &&
         pe.section_data_length_from_va(static_cast<typename PEClassType::BaseSize>(tls_directory_data.StartAddressOfRawData),
         static_cast<typename PEClassType::BaseSize>(tls_directory_data.StartAddressOfRawData), section_data_virtual, true)
         < (tls_directory_data.EndAddressOfRawData - tls_directory_data.StartAddressOfRawData))
-- 
2.43.0


From c7afd94e0cc9eed8d9777f8889aa494d77a6949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 49/83] fix: adding a resource whose data is a part of the same
 tree used freed memory

---
 src/pe_lib/pe_resource_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index ca0a335..f14941d 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -187,6 +187,11 @@ void pe_resource_manager::add_resource(const std::string& data, const std::wstri
 //Helper to add/replace resource
 void pe_resource_manager::add_resource(const std::string& data, resource_directory_entry& new_root_entry, const resource_directory::entry_finder& root_finder, resource_directory_entry& new_entry, const resource_directory::entry_finder& finder, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
+    //Create new data entry first, source data can be a part of this resource tree
+    resource_directory_entry new_dir_data_entry;
+    new_dir_data_entry.add_data_entry(resource_data_entry(data, codepage));
+    new_dir_data_entry.set_id(language);
+
     //Search for resource type
     resource_directory::entry_list* entries = &root_dir_edit_.get_entry_list();
     resource_directory::entry_list::iterator it = std::find_if(entries->begin(), entries->end(), root_finder);
@@ -220,10 +225,6 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         entries->erase(it); //Erase it, if found
 
     //Add new data entry
-    resource_directory_entry new_dir_data_entry;
-    resource_data_entry data_dir(data, codepage);
-    new_dir_data_entry.add_data_entry(data_dir);
-    new_dir_data_entry.set_id(language);
     entries->push_back(new_dir_data_entry);
 }
 
-- 
2.43.0


From 5be4d9da73edcdcdd7eabff8084f1a62f87a87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 50/83] fix: resource manager left stale entry counters in
 edited directories

---
 src/pe_lib/pe_resource_manager.cpp | 47 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index f14941d..5b34b0e 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -10,6 +10,24 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+namespace
+{
+//Recalculates number of named and ID entries after directory entry list was changed
+void update_entry_counters(resource_directory& dir)
+{
+    uint32_t named = 0;
+    const resource_directory::entry_list& entries = dir.get_entry_list();
+    for(resource_directory::entry_list::const_iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if((*it).is_named())
+            ++named;
+    }
+
+    dir.set_number_of_named_entries(named);
+    dir.set_number_of_id_entries(static_cast<uint32_t>(entries.size()) - named);
+}
+}
+
 //Constructor from root resource directory
 pe_resource_manager::pe_resource_manager(resource_directory& root_directory)
     :pe_resource_viewer(root_directory), root_dir_edit_(root_directory)
@@ -33,6 +51,7 @@ bool pe_resource_manager::remove_resource_type(resource_type type)
     {
         //Remove it, if found
         entries.erase(it);
+        update_entry_counters(root_dir_edit_);
         return true;
     }
 
@@ -48,6 +67,7 @@ bool pe_resource_manager::remove_resource(const std::wstring& root_name)
     {
         //Remove it, if found
         entries.erase(it);
+        update_entry_counters(root_dir_edit_);
         return true;
     }
 
@@ -63,14 +83,19 @@ bool pe_resource_manager::remove_resource(const resource_directory::entry_finder
     if(it_type != entries_type.end())
     {
         //Search for resource name/ID with "finder"
-        resource_directory::entry_list& entries_name = (*it_type).get_resource_directory().get_entry_list();
+        resource_directory& dir_name = (*it_type).get_resource_directory();
+        resource_directory::entry_list& entries_name = dir_name.get_entry_list();
         resource_directory::entry_list::iterator it_name = std::find_if(entries_name.begin(), entries_name.end(), finder);
         if(it_name != entries_name.end())
         {
             //Erase resource, if found
             entries_name.erase(it_name);
+            update_entry_counters(dir_name);
             if(entries_name.empty())
+            {
                 entries_type.erase(it_type);
+                update_entry_counters(root_dir_edit_);
+            }
 
             return true;
         }
@@ -114,22 +139,29 @@ bool pe_resource_manager::remove_resource(const resource_directory::entry_finder
     if(it_type != entries_type.end())
     {
         //Search for resource name/ID with "finder"
-        resource_directory::entry_list& entries_name = (*it_type).get_resource_directory().get_entry_list();
+        resource_directory& dir_name = (*it_type).get_resource_directory();
+        resource_directory::entry_list& entries_name = dir_name.get_entry_list();
         resource_directory::entry_list::iterator it_name = std::find_if(entries_name.begin(), entries_name.end(), finder);
         if(it_name != entries_name.end())
         {
             //Search for resource language
-            resource_directory::entry_list& entries_lang = (*it_name).get_resource_directory().get_entry_list();
+            resource_directory& dir_lang = (*it_name).get_resource_directory();
+            resource_directory::entry_list& entries_lang = dir_lang.get_entry_list();
             resource_directory::entry_list::iterator it_lang = std::find_if(entries_lang.begin(), entries_lang.end(), resource_directory::id_entry_finder(language));
             if(it_lang != entries_lang.end())
             {
                 //Erase resource, if found
                 entries_lang.erase(it_lang);
+                update_entry_counters(dir_lang);
                 if(entries_lang.empty())
                 {
                     entries_name.erase(it_name);
+                    update_entry_counters(dir_name);
                     if(entries_name.empty())
+                    {
                         entries_type.erase(it_type);
+                        update_entry_counters(root_dir_edit_);
+                    }
                 }
 
                 return true;
@@ -202,11 +234,13 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         dir.set_timestamp(timestamp);
         new_root_entry.add_resource_directory(dir);
         entries->push_back(new_root_entry);
+        update_entry_counters(root_dir_edit_);
         it = entries->end() - 1;
     }
 
     //Search for resource name/ID directory with "finder"
-    entries = &(*it).get_resource_directory().get_entry_list();
+    resource_directory* parent = &(*it).get_resource_directory();
+    entries = &parent->get_entry_list();
     it = std::find_if(entries->begin(), entries->end(), finder);
     if(it == entries->end())
     {
@@ -215,17 +249,20 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         dir.set_timestamp(timestamp);
         new_entry.add_resource_directory(dir);
         entries->push_back(new_entry);
+        update_entry_counters(*parent);
         it = entries->end() - 1;
     }
 
     //Search for data resource entry by language
-    entries = &(*it).get_resource_directory().get_entry_list();
+    parent = &(*it).get_resource_directory();
+    entries = &parent->get_entry_list();
     it = std::find_if(entries->begin(), entries->end(), resource_directory::id_entry_finder(language));
     if(it != entries->end())
         entries->erase(it); //Erase it, if found
 
     //Add new data entry
     entries->push_back(new_dir_data_entry);
+    update_entry_counters(*parent);
 }
 
 //Adds resource. If resource already exists, replaces it
-- 
2.43.0


From 7215d101b4832ce752881412263c5f87fa305ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 51/83] fix: cursor group with truncated entries was read past
 its end

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..cc258bd 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -420,7 +420,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group) * info->Count)
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 04eda40fb81f2e77bcd7c5144a9f79b903141995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 52/83] fix: height of cursors of 128 pixels and more was lost
 on reading

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index cc258bd..128b789 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 32d5c997e257ff0c9f4140851250720056c5f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 53/83] fix: icon and cursor writer could hang or overwrite
 existing icons when IDs run out

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 29 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..cc79e33 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -57,6 +57,10 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         if(icon_group_data.length() < sizeof(ico_header) + info->Count * sizeof(icon_group))
             throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
 
+        //Check total count of icons in group
+        if(info->Count + icon_header->Count > 0xFFFF)
+            throw pe_exception("Too many icons in group", pe_exception::resource_incorrect_icon);
+
         icon_group_data.resize(sizeof(ico_header) + (info->Count + icon_header->Count) * sizeof(icon_group));
         info = reinterpret_cast<ico_header*>(&icon_group_data[0]); //In case if memory was reallocated
     }
@@ -108,12 +112,21 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
     //Search for available icon/cursor IDs
     std::vector<uint16_t> icon_cursor_id_list;
 
+    std::vector<uint32_t> id_list;
     try
     {
         //If any icon exists
         //List icon IDs
-        std::vector<uint32_t> id_list(res_.list_resource_ids(type));
+        id_list = res_.list_resource_ids(type);
         std::sort(id_list.begin(), id_list.end());
+        //Icon/cursor group can't refer to larger IDs
+        id_list.erase(std::upper_bound(id_list.begin(), id_list.end(), 0xFFFFu), id_list.end());
+    }
+    catch(const pe_exception&) //Entry not found
+    {
+    }
+
+    {
 
         //If we are placing icon on free spaces
         //I.e., icon IDs 1, 3, 4, 7, 8 already exist
@@ -155,12 +168,12 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
 
         uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
         for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
+        {
+            if(max_id == 0xFFFF)
+                throw pe_exception("No free icon or cursor IDs left", pe_exception::resource_incorrect_icon);
+
             icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
-    }
-    catch(const pe_exception&) //Entry not found
-    {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+        }
     }
 
     return icon_cursor_id_list;
@@ -213,6 +226,10 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         if(cursor_group_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
+        //Check total count of cursors in group
+        if(info->Count + cur_header->Count > 0xFFFF)
+            throw pe_exception("Too many cursors in group", pe_exception::resource_incorrect_cursor);
+
         cursor_group_data.resize(sizeof(cursor_header) + (info->Count + cur_header->Count) * sizeof(cursor_group));
         info = reinterpret_cast<cursor_header*>(&cursor_group_data[0]); //In case if memory was reallocated
     }
-- 
2.43.0


From 1a23945051540749aee60e466e0d4f27a36694b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 54/83] fix: icon and cursor groups in more than one language
 could not be read by index

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 86 ++++++----------------
 src/pe_lib/resource_cursor_icon_reader.h   |  2 +-
 2 files changed, 23 insertions(+), 65 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 128b789..6eafd00 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -84,22 +84,12 @@ const std::string resource_cursor_icon_reader::get_single_icon_by_id(uint32_t id
 //Returns icon data by name and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstring& name, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by name and index
-    const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
-
-    //Create icon headers
-    uint16_t icon_count = format_icon_headers(ret, data);
-
-    //Append icon data
-    for(uint16_t i = 0; i != icon_count; ++i)
-    {
-        const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
-    }
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, name));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    //Icons have language of their group, index of this language can differ for them
+    return get_icon_by_name(languages.at(index), name);
 }
 
 //Returns icon data by name and language (minimum checks of format correctness)
@@ -147,22 +137,12 @@ const std::string resource_cursor_icon_reader::get_icon_by_id_lang(uint32_t lang
 //Returns icon data by ID and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by id and index
-    const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
-
-    //Create icon headers
-    uint16_t icon_count = format_icon_headers(ret, data);
-
-    //Append icon data
-    for(uint16_t i = 0; i != icon_count; ++i)
-    {
-        const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
-    }
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, id));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    //Icons have language of their group, index of this language can differ for them
+    return get_icon_by_id_lang(languages.at(index), id);
 }
 
 //Checks for icon presence inside icon group, fills icon headers if found
@@ -271,7 +251,7 @@ const std::string resource_cursor_icon_reader::get_single_cursor_by_id(uint32_t
 
 //Helper function of creating cursor headers
 //Returns cursor count
-uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language, uint32_t index) const
+uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language) const
 {
     //Check resource data length
     if(resource_data.length() < sizeof(cursor_header))
@@ -302,9 +282,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
-        const std::string cursor = index == 0xFFFFFFFF
-            ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+        const std::string cursor = res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data();
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -350,22 +328,12 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(uint32_t langu
 //Returns cursor data by name and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wstring& name, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by name and index
-    const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
-
-    //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
-
-    //Add cursor data
-    for(uint16_t i = 0; i != cursor_count; ++i)
-    {
-        const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
-    }
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, name));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    //Cursors have language of their group, index of this language can differ for them
+    return get_cursor_by_name(languages.at(index), name);
 }
 
 //Returns cursor data by ID and language (minimum checks of format correctness)
@@ -392,22 +360,12 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id_lang(uint32_t la
 //Returns cursor data by ID and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by ID and index
-    const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
-
-    //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
-
-    //Add cursor data
-    for(uint16_t i = 0; i != cursor_count; ++i)
-    {
-        const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
-    }
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, id));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    //Cursors have language of their group, index of this language can differ for them
+    return get_cursor_by_id_lang(languages.at(index), id);
 }
 
 //Checks for cursor presence inside cursor group, fills cursor headers if found
diff --git a/src/pe_lib/resource_cursor_icon_reader.h b/src/pe_lib/resource_cursor_icon_reader.h
index 7bd5ce4..13c208e 100644
--- a/src/pe_lib/resource_cursor_icon_reader.h
+++ b/src/pe_lib/resource_cursor_icon_reader.h
@@ -48,7 +48,7 @@ private:
     
     //Helper function of creating cursor headers from CURSOR_GROUP resource data
     //Returns cursor count
-    uint16_t format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language, uint32_t index = 0xFFFFFFFF) const;
+    uint16_t format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language) const;
 
     //Looks up icon group by icon id and returns full icon headers if found
     const std::string lookup_icon_group_data_by_icon(uint32_t icon_id, uint32_t language) const;
-- 
2.43.0


From af004249fbe27271c9f652f7644942863ef3f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 55/83] fix: wrong offset to bits of bitmaps with extended info
 header, color masks or embedded image

---
 src/pe_lib/resource_bitmap_reader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index a3952d4..4470f26 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include "resource_bitmap_reader.h"
 #include "pe_resource_viewer.h"
@@ -41,7 +42,7 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
     //Create bitmap file header
     bitmapfileheader header = {0};
     header.bfType = 0x4d42; //Signature "BM"
-    header.bfOffBits = sizeof(bitmapfileheader) + sizeof(bitmapinfoheader); //Offset to bitmap bits
+    header.bfOffBits = sizeof(bitmapfileheader); //Offset to bitmap bits
     header.bfSize = static_cast<uint32_t>(sizeof(bitmapfileheader) + resource_data.length()); //Size of bitmap
 
     //Check size of resource data
@@ -52,10 +53,16 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //Get bitmap info header
         const bitmapinfoheader* info = reinterpret_cast<const bitmapinfoheader*>(resource_data.data());
 
+        //Skip info header, it can have extended version
+        header.bfOffBits += std::max<uint32_t>(info->biSize, sizeof(bitmapinfoheader));
+        //Skip color masks, which are not included to info header of basic version
+        if(info->biSize <= sizeof(bitmapinfoheader) && info->biCompression == 3 /* BI_BITFIELDS */)
+            header.bfOffBits += 3 * sizeof(uint32_t);
+
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-        else if(info->biBitCount <= 8)
+        else if(info->biBitCount != 0 && info->biBitCount <= 8)
             header.bfOffBits += 4 * static_cast<uint32_t>(std::pow(2.f, info->biBitCount)); //Add this size to offset to bitmap bits
     }
 
-- 
2.43.0


From fe958f09d9378797a16c5ff9e977044a99e21843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 56/83] fix: string table resource was read past its end

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..da95df5 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From fb2aded818c00863f69eecb363d0d54c47b28cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 57/83] fix: small message tables could not be read

---
 src/pe_lib/resource_message_list_reader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..2166da0 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -15,15 +15,16 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     resource_message_list ret;
 
     //Check resource data length
-    if(resource_data.length() < sizeof(message_resource_data))
+    static const uint32_t size_of_table_header = sizeof(message_resource_data) - sizeof(message_resource_block);
+    if(resource_data.length() < size_of_table_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     const message_resource_data* message_data = reinterpret_cast<const message_resource_data*>(resource_data.data());
 
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
-        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), size_of_table_header)
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + size_of_table_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
-- 
2.43.0


From b8b8aff125a9b5e4271fdd09b9888c7b2aa9fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 58/83] fix: message table with the greatest message ID could
 not be read

---
 src/pe_lib/resource_message_list_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index 2166da0..4eb9382 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -89,6 +89,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
                     )));
             }
 
+            //ID of the last entry can be the greatest possible one
+            if(curr_id == block->HighId)
+                break;
+
             //Go to next entry
             current_pos += entry->Length;
         }
-- 
2.43.0


From c7f37a938703077096333d882c6e9e9ae7adb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 59/83] fix: version info strings and translations were read
 past the end of resource

---
 src/pe_lib/resource_version_info_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..3f0933a 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(uint16_t))
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
@@ -225,7 +225,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-                    for(uint32_t i = 0; i < var_table->ValueLength; i += sizeof(uint16_t) * 2)
+                    for(uint32_t i = 0; i + sizeof(uint16_t) * 2 <= var_table->ValueLength; i += sizeof(uint16_t) * 2)
                     {
                         //Pair of WORDs
                         uint16_t lang_id = *reinterpret_cast<const uint16_t*>(resource_data.data() + value_pos + i);
-- 
2.43.0


From 13a050a8a3f584c18440b70602c7592ee030f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 60/83] fix: reading malformed version info with blocks leaving
 their parents could take unlimited time

---
 src/pe_lib/resource_version_info_reader.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 3f0933a..f86a403 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "resource_version_info_reader.h"
 #include "utils.h"
 #include "pe_exception.h"
@@ -114,13 +115,16 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         if(!pe_utils::is_null_terminated(block->Key, resource_data.length() - child_pos - sizeof(uint16_t) * 3 /* headers before Key data */))
             throw_incorrect_version_info();
 
+        //Child blocks can't leave their parent block
+        const uint32_t child_end = std::min<uint32_t>(child_pos + block->Length, root_block->Length);
+
         u16string info_type(reinterpret_cast<const unicode16_t*>(block->Key));
         //If we encountered StringFileInfo...
         if(info_type == StringFileInfo)
         {
             //Enumerate all string tables
             for(uint32_t string_table_pos = get_version_block_first_child_pos(child_pos, block->ValueLength, reinterpret_cast<const unicode16_t*>(block->Key));
-                string_table_pos - child_pos < block->Length;)
+                string_table_pos < child_end;)
             {
                 //Check string table block position
                 if(resource_data.length() < string_table_pos + sizeof(version_info_block))
@@ -137,11 +141,12 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 if(!pe_utils::is_null_terminated(string_table->Key, resource_data.length() - string_table_pos - sizeof(uint16_t) * 3 /* headers before Key data */))    
                     throw_incorrect_version_info();
 
+                const uint32_t string_table_end = std::min<uint32_t>(string_table_pos + string_table->Length, child_end);
                 string_values_map new_values;
 
                 //Enumerate all strings in the string table
                 for(uint32_t string_pos = get_version_block_first_child_pos(string_table_pos, string_table->ValueLength, reinterpret_cast<const unicode16_t*>(string_table->Key));
-                    string_pos - string_table_pos < string_table->Length;)
+                    string_pos < string_table_end;)
                 {
                     //Check string block position
                     if(resource_data.length() < string_pos + sizeof(version_info_block))
@@ -198,7 +203,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
         {
             for(uint32_t var_table_pos = get_version_block_first_child_pos(child_pos, block->ValueLength, reinterpret_cast<const unicode16_t*>(block->Key));
-                var_table_pos - child_pos < block->Length;)
+                var_table_pos < child_end;)
             {
                 //Check var block position
                 if(resource_data.length() < var_table_pos + sizeof(version_info_block))
-- 
2.43.0


From db225d7b4026b5895b00106c144f02d798ec4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 61/83] fix: version info which is too large was written
 damaged

---
 src/pe_lib/resource_version_info_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..ab27917 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -62,6 +62,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Length of version info block is stored as WORD
+    if(total_version_info_length > pe_utils::max_word)
+        throw pe_exception("Version info is too large", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From c4b2e024ccee59815c16b38ef38f755712b29b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 62/83] fix: removing translation left its string table if the
 translation is in upper case

---
 src/pe_lib/version_info_editor.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..d9855e5 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -144,7 +144,21 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
         
-        strings_edit_.erase(ss.str());
+        //HEX-string can be in any case
+        for(lang_string_values_map::iterator it = strings_edit_.begin(); it != strings_edit_.end();)
+        {
+            std::wstring table_translation((*it).first);
+            for(std::wstring::iterator ch = table_translation.begin(); ch != table_translation.end(); ++ch)
+            {
+                if(*ch >= L'A' && *ch <= L'F')
+                    *ch = *ch - L'A' + L'a';
+            }
+
+            if(table_translation == ss.str())
+                strings_edit_.erase(it++);
+            else
+                ++it;
+        }
     }
 
     //Find and erase translation from translations table
-- 
2.43.0


From fc56cf5fe21df1e6bddeab7ce1241693e264a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 63/83] fix: CodeView debug information of older versions was
 never reported

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..79ea134 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -298,7 +298,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From 6f33f71920441d7855491352f04ec8ac2352d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 64/83] fix: assignment of debug_info to itself used freed
 memory

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 79ea134..fd7b3a1 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,9 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
-- 
2.43.0


From db048fda2a1df5b5ee2f268267449e80d2294aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 65/83] fix: debug directory reader dropped entries after one
 without file data and failed when directory ends its section

---
 src/pe_lib/pe_base.cpp  | 10 ++++------
 src/pe_lib/pe_debug.cpp |  9 +++------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 444ad2a..256aac5 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1007,17 +1007,16 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
             uint32_t current_pos = get_directory_rva(image_directory_entry_debug);
 
-            //First IMAGE_DEBUG_DIRECTORY table
-            image_debug_directory directory = section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
-
             //Iterate over all IMAGE_DEBUG_DIRECTORY directories
-            while(directory.PointerToRawData
-                && current_pos < get_directory_rva(image_directory_entry_debug) + get_directory_size(image_directory_entry_debug))
+            while(current_pos < get_directory_rva(image_directory_entry_debug) + get_directory_size(image_directory_entry_debug))
             {
+                image_debug_directory directory = section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
+
                 //If we have something to read
                 if((directory.Type == image_debug_type_codeview
                     || directory.Type == image_debug_type_misc
                     || directory.Type == image_debug_type_coff)
+                    && directory.PointerToRawData
                     && directory.SizeOfData)
                 {
                     std::string data;
@@ -1032,7 +1031,6 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
                 //Go to next debug entry
                 current_pos += sizeof(image_debug_directory);
-                directory = section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
             }
 
             break;
diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index fd7b3a1..5de5acc 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -617,16 +617,14 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
     uint32_t current_pos = pe.get_directory_rva(image_directory_entry_debug);
 
-    //First IMAGE_DEBUG_DIRECTORY table
-    image_debug_directory directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
-
     if(!pe_utils::is_sum_safe(pe.get_directory_rva(image_directory_entry_debug), pe.get_directory_size(image_directory_entry_debug)))
         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
     //Iterate over all IMAGE_DEBUG_DIRECTORY directories
-    while(directory.PointerToRawData
-        && current_pos < pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
+    while(current_pos < pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
     {
+        image_debug_directory directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
+
         //Create debug information structure
         debug_info info(directory);
 
@@ -839,7 +837,6 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
-        directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
     return ret;
-- 
2.43.0


From d84da01fc2fb865dbe5bb437506e96060e8bdd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 66/83] fix: COFF file names were read from a wrong offset

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5de5acc..f4b9291 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -678,7 +678,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
-- 
2.43.0


From ae135eb25f4cf042fef92feae9eb84180a42fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 67/83] fix: auxiliary COFF symbols of skipped symbols were
 listed as symbols

---
 src/pe_lib/pe_debug.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index f4b9291..4377e90 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -738,11 +738,10 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                             //Save symbol info
                             coff_info.add_symbol(symbol);
-
-                            //Move to next symbol
-                            i += sym->NumberOfAuxSymbols;
-                            continue;
                         }
+
+                        //Move to next symbol
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
-- 
2.43.0


From 7bad705156eb750367921fa1e0732d0328e3782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 68/83] fix: miscellaneous debug information shorter than its
 header was not refused properly

---
 src/pe_lib/pe_debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 4377e90..9781ce7 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -817,7 +817,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(debug_data.length() < misc_data->Length /* Total length of record */
+                        || misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE[1] in the end of structure */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From dcbce937ff3a701c55703d1c54da5960fea0a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 69/83] fix: size of debug data was not checked against file
 size before allocating memory

---
 src/pe_lib/pe_base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 256aac5..84027a9 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1019,6 +1019,11 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     && directory.PointerToRawData
                     && directory.SizeOfData)
                 {
+                    //Check that data is situated inside file
+                    if(directory.PointerToRawData > static_cast<uint64_t>(filesize)
+                        || directory.SizeOfData > static_cast<uint64_t>(filesize) - directory.PointerToRawData)
+                        throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
                     std::string data;
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
-- 
2.43.0


From d19b8f3dff2a919c80de3a44df2b83a259869f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 70/83] fix: exception directory reader ignored directory size

---
 src/pe_lib/pe_exception_directory.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..2bed0f7 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -130,12 +130,16 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
     if(current_pos % sizeof(uint32_t))
         throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
-    //First IMAGE_RUNTIME_FUNCTION_ENTRY table
-    image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
-
     //todo: virtual addresses BeginAddress and EndAddress are not checked to be inside image
-    while(exception_table.BeginAddress)
+    for(uint32_t size_left = pe.get_directory_size(image_directory_entry_exception);
+        size_left >= sizeof(image_runtime_function_entry);
+        size_left -= sizeof(image_runtime_function_entry))
     {
+        //Next IMAGE_RUNTIME_FUNCTION_ENTRY table
+        image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
+        if(!exception_table.BeginAddress)
+            break;
+
         //Check addresses
         if(exception_table.BeginAddress > exception_table.EndAddress)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
@@ -148,7 +152,6 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
-        exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
     }
 
     return ret;
-- 
2.43.0


From 326930f3e2fa8d7ac5ab1d606a112327b431010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 71/83] fix: exception entry with empty unwind information at
 the end of section could not be read

---
 src/pe_lib/pe_exception_directory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index 2bed0f7..6a6e1a1 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "pe_exception_directory.h"
 
 namespace pe_bliss
@@ -145,7 +146,11 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
         //Get unwind information
-        unwind_info info = pe.section_data_from_rva<unwind_info>(exception_table.UnwindInfoAddress, section_data_virtual, true);
+        //Only its header is needed, array of unwind codes can be empty
+        const uint32_t unwind_header = pe.section_data_from_rva<uint32_t>(exception_table.UnwindInfoAddress, section_data_virtual, true);
+        unwind_info info;
+        memset(&info, 0, sizeof(info));
+        memcpy(&info, &unwind_header, sizeof(unwind_header));
 
         //Create exception entry and save it
         ret.push_back(exception_entry(exception_table, info));
-- 
2.43.0


From 6e3a4c08375e92bef82efb943be47e9d65d18889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 72/83] fix: out of bounds reads in rich data reader

---
 src/pe_lib/pe_rich_data.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..891ebf5 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -60,7 +60,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,7 +73,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
@@ -82,9 +82,10 @@ const rich_data_list get_rich_data(const pe_base& pe)
         //True if rich data was found
         found = false;
 
-        //Second search for signature "DanS"
+        //Second search for signature "DanS", it precedes "Rich" word
+        end = begin;
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -96,28 +97,22 @@ const rich_data_list get_rich_data(const pe_base& pe)
         //If second signature is found
         if(found)
         {
-            begin += sizeof(uint32_t) * 3;
+            //Signature is followed by three padding values
+            if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 4)
+                return ret;
+
+            begin += sizeof(uint32_t) * 4;
             //List all rich data structures
-            while(begin < end)
+            while(static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 2)
             {
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
-                //Check for rich overlay data end ("Rich" word reached)
-                if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
-                    break;
-
                 //Create rich_data structure
                 rich_data data;
                 data.set_number((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) >> 16);
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
+                begin += sizeof(uint32_t);
 
                 //Save rich data structure
                 ret.push_back(data);
-- 
2.43.0


From cd3da8617ffd52ec2595ea06aa074984d14152ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 73/83] fix: version information blocks shorter than their own
 keys made parsing cubic

---
 src/pe_lib/resource_version_info_reader.cpp | 36 ++++++++++++---------
 src/pe_lib/resource_version_info_reader.h   |  3 ++
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index f86a403..8d7c3ea 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -49,6 +49,14 @@ uint32_t resource_version_info_reader::get_version_block_first_child_pos(uint32_
     return ret;
 }
 
+//Checks that version block contains its header and key
+void resource_version_info_reader::check_version_block_length(const version_info_block* block)
+{
+    if(block->Length < sizeof(uint16_t) * 3 /* headers before Key data */
+        + (u16string(reinterpret_cast<const unicode16_t*>(block->Key)).length() + 1 /* nullbyte */) * sizeof(unicode16_t))
+        throw_incorrect_version_info();
+}
+
 //Throws an exception (id = resource_incorrect_version_info)
 void resource_version_info_reader::throw_incorrect_version_info()
 {
@@ -107,14 +115,13 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         //Get VERSION_INFO_BLOCK structure pointer
         const version_info_block* block = reinterpret_cast<const version_info_block*>(resource_data.data() + child_pos);
 
-        //Check its length
-        if(block->Length == 0)
-            throw_incorrect_version_info();
-
         //Check block key for null-termination
         if(!pe_utils::is_null_terminated(block->Key, resource_data.length() - child_pos - sizeof(uint16_t) * 3 /* headers before Key data */))
             throw_incorrect_version_info();
 
+        //Check its length
+        check_version_block_length(block);
+
         //Child blocks can't leave their parent block
         const uint32_t child_end = std::min<uint32_t>(child_pos + block->Length, root_block->Length);
 
@@ -133,14 +140,13 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 //Get VERSION_INFO_BLOCK structure pointer for string table
                 const version_info_block* string_table = reinterpret_cast<const version_info_block*>(resource_data.data() + string_table_pos);
 
-                //Check its length
-                if(string_table->Length == 0)
-                    throw_incorrect_version_info();
-
                 //Check string table key for null-termination
                 if(!pe_utils::is_null_terminated(string_table->Key, resource_data.length() - string_table_pos - sizeof(uint16_t) * 3 /* headers before Key data */))    
                     throw_incorrect_version_info();
 
+                //Check its length
+                check_version_block_length(string_table);
+
                 const uint32_t string_table_end = std::min<uint32_t>(string_table_pos + string_table->Length, child_end);
                 string_values_map new_values;
 
@@ -155,14 +161,13 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                     //Get VERSION_INFO_BLOCK structure pointer for string block
                     const version_info_block* string_block = reinterpret_cast<const version_info_block*>(resource_data.data() + string_pos);
 
-                    //Check its length
-                    if(string_block->Length == 0)
-                        throw_incorrect_version_info();
-
                     //Check string block key for null-termination
                     if(!pe_utils::is_null_terminated(string_block->Key, resource_data.length() - string_pos - sizeof(uint16_t) * 3 /* headers before Key data */))
                         throw_incorrect_version_info();
 
+                    //Check its length
+                    check_version_block_length(string_block);
+
                     u16string data;
                     //If string block has value
                     if(string_block->ValueLength != 0)
@@ -212,14 +217,13 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 //Get VERSION_INFO_BLOCK structure pointer for var block
                 const version_info_block* var_table = reinterpret_cast<const version_info_block*>(resource_data.data() + var_table_pos);
 
-                //Check its length
-                if(var_table->Length == 0)
-                    throw_incorrect_version_info();
-
                 //Check its key for null-termination
                 if(!pe_utils::is_null_terminated(var_table->Key, resource_data.length() - var_table_pos - sizeof(uint16_t) * 3 /* headers before Key data */))
                     throw_incorrect_version_info();
 
+                //Check its length
+                check_version_block_length(var_table);
+
                 //If block is "Translation" (actually, there's no other types possible in VarFileInfo) and it has value
                 if(u16string(reinterpret_cast<const unicode16_t*>(var_table->Key)) == Translation && var_table->ValueLength)
                 {
diff --git a/src/pe_lib/resource_version_info_reader.h b/src/pe_lib/resource_version_info_reader.h
index e529f85..9f8b852 100644
--- a/src/pe_lib/resource_version_info_reader.h
+++ b/src/pe_lib/resource_version_info_reader.h
@@ -40,6 +40,9 @@ private:
     //translation_values_map: map of translations
     const file_version_info get_version_info(lang_string_values_map& string_values, translation_values_map& translations, const std::string& resource_data) const;
 
+    //Checks that version block contains its header and key
+    static void check_version_block_length(const pe_win::version_info_block* block);
+
     //Throws an exception (id = resource_incorrect_version_info)
     static void throw_incorrect_version_info();
 };
-- 
2.43.0


From 5448b2df345ea57d85c50d36d994e3be9f6fc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 74/83] fix: version information blocks of length 0xFFFD and
 more never ended parsing

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 8d7c3ea..f3dd591 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up<uint32_t>(string_block->Length, sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -202,7 +202,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up<uint32_t>(string_table->Length, sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -245,7 +245,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up<uint32_t>(var_table->Length, sizeof(uint32_t));
             }
         }
         else
@@ -254,7 +254,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up<uint32_t>(block->Length, sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From 1fcdecbb062a0bb83e81d49d032af26cf36b64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 75/83] fix: refused rebuild moved bound import directory

---
 src/pe_lib/pe_rebuilder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 88b8e75..e91e137 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -40,10 +40,10 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
         - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes())
         + sections.size() * sizeof(image_section_header);
 
+    //It will be aligned to DWORD, because we're aligning to DWORD everything above it
+    const uint32_t bound_import_rva = static_cast<uint32_t>(ptr_to_section_data);
     if(save_bound_import && pe.has_bound_import())
     {
-        //It will be aligned to DWORD, because we're aligning to DWORD everything above it
-        pe.set_directory_rva(image_directory_entry_bound_import, static_cast<uint32_t>(ptr_to_section_data));
         ptr_to_section_data += pe.get_directory_size(image_directory_entry_bound_import);    
     }
     
@@ -61,6 +61,9 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
         pe.set_size_of_headers(static_cast<uint32_t>(ptr_to_section_data));
     }
 
+    if(save_bound_import && pe.has_bound_import())
+        pe.set_directory_rva(image_directory_entry_bound_import, bound_import_rva);
+
     //Set number of sections in PE header
     pe.update_number_of_sections();
 
-- 
2.43.0


From a329354959837e1787c80f46ac12be40c37adf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 76/83] fix: read nameless exports whose empty name table lies
 at the section end

---
 src/pe_lib/pe_exports.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index d343d4a..efe64fb 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -326,7 +326,8 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
             < exports.NumberOfFunctions * sizeof(uint32_t))
             throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-        if(exports.AddressOfNames)
+        //Empty tables can lie at the very end of a section
+        if(exports.AddressOfNames && exports.NumberOfNames)
         {
             //Check if it is enough bytes to hold name and ordinal tables
             if(pe.section_data_length_from_rva(exports.AddressOfNameOrdinals, exports.AddressOfNameOrdinals, section_data_virtual, true)
-- 
2.43.0


From fe0f983c1f5703a1595923196ed766387568b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 77/83] fix: report memory exhaustion when formatting version
 strings instead of cutting the text

---
 src/pe_lib/file_version_info.h     | 1 +
 src/pe_lib/version_info_editor.cpp | 1 +
 src/pe_lib/version_info_viewer.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/pe_lib/file_version_info.h b/src/pe_lib/file_version_info.h
index d32a15a..5ae1b15 100644
--- a/src/pe_lib/file_version_info.h
+++ b/src/pe_lib/file_version_info.h
@@ -154,6 +154,7 @@ private:
     static const std::basic_string<T> get_version_string(uint32_t ms, uint32_t ls)
     {
         std::basic_stringstream<T> ss;
+        ss.exceptions(std::ios::badbit); //Text must not be cut silently if there is no memory for it
         ss << (ms >> 16) << static_cast<T>(L'.')
             << (ms & 0xFFFF) << static_cast<T>(L'.')
             << (ls >> 16) << static_cast<T>(L'.')
diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index d9855e5..22f761c 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -140,6 +140,7 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
     {
         //Erase string table (if exists)
         std::wstringstream ss;
+        ss.exceptions(std::ios::badbit); //Text must not be cut silently if there is no memory for it
         ss << std::hex
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
diff --git a/src/pe_lib/version_info_viewer.cpp b/src/pe_lib/version_info_viewer.cpp
index 9f8c7a3..a76f165 100644
--- a/src/pe_lib/version_info_viewer.cpp
+++ b/src/pe_lib/version_info_viewer.cpp
@@ -77,6 +77,7 @@ const version_info_viewer::translation_list version_info_viewer::get_translation
     {
         //Create string representation of translation value
         std::wstringstream ss;
+        ss.exceptions(std::ios::badbit); //Text must not be cut silently if there is no memory for it
         ss << std::hex
             << std::setw(4) << std::setfill(L'0') << (*it).first
             << std::setw(4) << std::setfill(L'0') <<  (*it).second;
@@ -150,6 +151,7 @@ const version_info_viewer::translation_pair version_info_viewer::translation_fro
     {
         //Convert string to DWORD
         std::wstringstream ss;
+        ss.exceptions(std::ios::badbit); //Text must not be cut silently if there is no memory for it
         ss << std::hex << translation;
         ss >> translation_id;
     }
-- 
2.43.0


From 6417b148a1a937c4afb7f2f2b7f732a7d38dc2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 78/83] fix: calculate remaining data length of sections larger
 than 2 GB correctly

---
 src/pe_lib/pe_base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 84027a9..36f2b39 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -720,13 +720,13 @@ uint32_t pe_base::section_data_length_from_rva(const section& s, uint32_t rva_in
     if(rva_inside >= s.get_virtual_address() && rva_inside < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
     {
         //Calculate remaining length of section data from "rva" address
-        int32_t length = static_cast<int32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
-            + s.get_virtual_address() - rva_inside;
+        uint32_t length = static_cast<uint32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()));
+        uint32_t offset = rva_inside - s.get_virtual_address();
 
-        if(length < 0)
+        if(length < offset)
             return 0;
 
-        return static_cast<uint32_t>(length);
+        return length - offset;
     }
 
     throw pe_exception("RVA not found inside section", pe_exception::rva_not_exists);
-- 
2.43.0


From 9fa6e3038bf94e5c9cbe07fc59bb07b9f7732d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:21 +0000
Subject: [PATCH 79/83] fix: wrong padding of sections when rebuilding to a
 stream which does not start with the image or can not be positioned

---
 src/pe_lib/pe_rebuilder.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index e91e137..4057994 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -115,6 +115,9 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         save_bound_import = false;
     }
 
+    //Number of bytes of image written (stream may contain something before the image or be not seekable)
+    size_t wpos = strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header);
+
     {
         image_dos_header dos_header;
 
@@ -122,7 +125,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         rebuild_pe(pe, dos_header, strip_dos_header, change_size_of_headers, save_bound_import);
 
         //Write DOS header
-        out.write(reinterpret_cast<const char*>(&dos_header), strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header));
+        out.write(reinterpret_cast<const char*>(&dos_header), wpos);
     }
 
     //If we have stub overlay, write it too
@@ -132,6 +135,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         {
             out.write(stub.data(), stub.size());
             size_t aligned_size = pe_utils::align_up(stub.size(), sizeof(uint32_t));
+            wpos += aligned_size;
             //Align PE header, which is right after rich overlay
             while(aligned_size > stub.size())
             {
@@ -142,14 +146,17 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     }
     
     //Write NT headers
-    out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()
-        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes()));
+    const size_t nt_headers_size = pe.get_sizeof_nt_header()
+        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes());
+    out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), nt_headers_size);
+    wpos += nt_headers_size;
 
     //Write section headers
     const section_list& sections = pe.get_image_sections();
     for(section_list::const_iterator it = sections.begin(); it != sections.end(); ++it)
     {
         out.write(reinterpret_cast<const char*>(&(*it).get_raw_header()), sizeof(image_section_header));
+        wpos += sizeof(image_section_header);
     }
 
     //Write bound import data if requested
@@ -157,6 +164,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
             pe.get_directory_size(image_directory_entry_bound_import));
+        wpos += pe.get_directory_size(image_directory_entry_bound_import);
 
         //Headers data of the image itself was not changed, directory is still at its old place there
         pe.set_directory_rva(image_directory_entry_bound_import, original_bound_import_rva);
@@ -171,10 +179,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         if(!s.get_size_of_raw_data())
             continue;
 
-        std::streamoff wpos = out.tellp();
-
         //Fill unused overlay data between sections with null bytes
-        for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
+        for(; wpos < s.get_pointer_to_raw_data(); ++wpos)
             out.put(0);
 
         //Write raw section data (header size can be aligned up and be greater than the size of data)
@@ -183,6 +189,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         out.write(raw_data.data(), data_size);
         for(; data_size != s.get_size_of_raw_data(); ++data_size)
             out.put('\0');
+
+        wpos += s.get_size_of_raw_data();
     }
 }
 }
-- 
2.43.0


From d6323b6fa2a76cd56ee3a2b1f1f03ea8212d3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 80/83] fix: refuse relocation blocks of odd size and blocks
 smaller than their header

---
 src/pe_lib/pe_relocations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index fc846d0..d8021e7 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -123,15 +123,16 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
     //reloc_table.VirtualAddress is not checked (not so important)
     while(reloc_table.SizeOfBlock && read_size < reloc_size)
     {
+        //Check the size of each block
+        if(reloc_table.SizeOfBlock < sizeof(image_base_relocation) || reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         //Create relocation table
         relocation_table table;
         //Save RVA
-- 
2.43.0


From 718fcf4edb4f871f76f89bf7905dc1e86d436f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 81/83] fix: debug entries which share a file position with
 another entry were decoded from the data of that entry

---
 src/pe_lib/pe_debug.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 9781ce7..c945b36 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -630,8 +630,12 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Find raw debug data
         const pe_base::debug_data_list& debug_datas = pe.get_raw_debug_data_list();
-        pe_base::debug_data_list::const_iterator it = debug_datas.find(directory.PointerToRawData);
-        if(it != debug_datas.end()) //If it exists, we'll do some detailed debug info research
+        pe_base::debug_data_list::const_iterator it = debug_datas.lower_bound(directory.PointerToRawData);
+        //Several entries may refer to the same position, look for the data of this one
+        while(it != debug_datas.end() && (*it).first == directory.PointerToRawData && (*it).second.length() != directory.SizeOfData)
+            ++it;
+
+        if(it != debug_datas.end() && (*it).first == directory.PointerToRawData) //If it exists, we'll do some detailed debug info research
         {
             const std::string& debug_data = (*it).second;
             switch(directory.Type)
-- 
2.43.0


From 6db37479a936c02b7927cab1d06846f63643b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:50 +0000
Subject: [PATCH 82/83] fix: the realigner sample looped forever on a wrong
 choice and at the end of its input

---
 src/samples/pe_realigner/main.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/samples/pe_realigner/main.cpp b/src/samples/pe_realigner/main.cpp
index e1d7d1b..8f9a92d 100644
--- a/src/samples/pe_realigner/main.cpp
+++ b/src/samples/pe_realigner/main.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <pe_bliss.h>
 
 using namespace pe_bliss;
@@ -38,12 +39,21 @@ int main(int argc, char* argv[])
             {
                 //На случай, если пользователь ввел что-то некорректное
                 std::cin.clear();
-                std::cin.ignore(static_cast<std::streamsize>(-1), '\n');
+                std::cin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
             }
 
             std::cout << "Choose new file alignment" << std::endl;
             std::cout << "(0 = 512, 1 = 1024, 2 = 2048, 3 = 4096): ";
-            std::cin >> new_alignment_index;
+            if(!(std::cin >> new_alignment_index))
+            {
+                if(std::cin.eof())
+                {
+                    std::cout << std::endl << "File alignment was not chosen" << std::endl;
+                    return -1;
+                }
+
+                new_alignment_index = static_cast<unsigned int>(-1); //It is zeroed or clipped if incorrect value was entered
+            }
         }
         
         unsigned int available_aligns[] = {512, 1024, 2048, 4096};
-- 
2.43.0


From 2c05e2eaf4e02ecda0457b14ee35cd330ac980ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:34 +0000
Subject: [PATCH 83/83] fix: the resource viewer sample gave up on images
 without an icon or without string tables

---
 src/samples/resource_viewer/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/samples/resource_viewer/main.cpp b/src/samples/resource_viewer/main.cpp
index a20c64d..f5e9360 100644
--- a/src/samples/resource_viewer/main.cpp
+++ b/src/samples/resource_viewer/main.cpp
@@ -105,6 +105,7 @@ int main(int argc, char* argv[])
             std::wcout << L"Original filename: " << version_viewer.get_original_filename() << std::endl << std::endl;
         }
 
+        if(res.resource_exists(pe_resource_viewer::resource_icon_group))
         {
             //Найдем, есть ли у приложения иконка
             //Для этого сначала узнаем все имена и идентификаторы групп иконок
@@ -164,6 +165,7 @@ int main(int argc, char* argv[])
             }
         }
 
+        if(res.resource_exists(pe_resource_viewer::resource_string))
         {
             //Сдампим строковые таблицы
             //Перечислим идентификаторы существующих строковых таблиц
-- 
2.43.0

