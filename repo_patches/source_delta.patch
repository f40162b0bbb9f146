From 01bacc84da693e3fec824b19819cd58412e624ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 001/166] fix: place HRV lines on the full-disk grid also when
 the scan stops short of its top

The first raster line is line 11136 of the HRV grid, whatever the highest line
actually covered is: with an upper window that is absent or ends early, the image
was shifted north with respect to its georeference.
---
 msat/xrit/dataaccess.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..fe6a8e6 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -30,6 +30,9 @@ using namespace std;
 namespace msat {
 namespace xrit {
 
+// Lines of the full-disk HRV reference grid
+static const size_t HRV_GRID_LINES = 11136;
+
 DataAccess::DataAccess() : npixperseg(0)
 {
 }
@@ -198,10 +201,10 @@ MSG_data* DataAccess::segment(size_t idx) const
 size_t DataAccess::line_start(size_t line) const
 {
     if (!hrv) return WestColumnActual - 1;
-    if (line >= MaxLineActual) return 0;
+    if (line >= HRV_GRID_LINES) return 0;
 
     // Bring line in the domain of the HRV reference grid
-    line = MaxLineActual - line;
+    line = HRV_GRID_LINES - line;
 
     if (line < LowerSouthLineActual) return 0;
     if (line <= LowerNorthLineActual) return 11136 - LowerWestColumnActual;
@@ -219,7 +222,7 @@ void DataAccess::line_read(size_t line, MSG_SAMPLE* buf) const
 
     if (hrv)
     {
-        line = MaxLineActual - line - 1;
+        line = HRV_GRID_LINES - line - 1;
         segnum = line / seglines;
         segline = line % seglines;
         d = segment(segnum);
-- 
2.43.0


From 5e38f9d0788bb3df96f36a9e26e840633f4a813e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 002/166] fix: refuse xRIT headers whose record lengths do not
 add up

Record lengths were used without checking them against the header size, line
quality records against the image structure, and errors were raised with a bare
throw, which terminates the process. Ancillary text was not terminated.
---
 msat/hrit/MSG_header.cpp                | 104 ++++++++++++++----------
 msat/hrit/MSG_header_ancillary_text.cpp |   8 +-
 msat/hrit/MSG_header_image_datafunc.cpp |   5 +-
 3 files changed, 71 insertions(+), 46 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..5190ec3 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -28,9 +28,23 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <memory>
+#include <stdexcept>
+#include <vector>
 
 #include <msat/hrit/MSG_header.h>
 
+// Replace a record with one decoded from buff; the last one wins if a record
+// appears more than once
+template<typename T>
+static void read_record( T*& rec, unsigned const char_1 *buff )
+{
+  std::unique_ptr<T> res(new T);
+  res->read_from(buff);
+  delete rec;
+  rec = res.release( );
+}
+
 MSG_header::MSG_header( )
 {
   image_structure = 0;
@@ -74,50 +88,58 @@ MSG_header::~MSG_header( )
 void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
-  unsigned char_1 *hbuff;
 
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: cannot read primary header");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
     std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: first header is not the primary header");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: wrong primary header length");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  if (total_header_length < MSG_HEADER_PRIMARY_LEN)
+    throw std::runtime_error("HRIT file: total header length is too small");
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
-  hbuff = new unsigned char_1[hsize];
-  if (!hbuff)
-  {
-    std::cerr << "Memory allocation error in MSG_header." << std::endl
-              << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
-  }
-  in.read((char_1 *) hbuff, hsize);
-  if (in.fail( ))
+  // Read in chunks, not to allocate memory for data that is not there
+  std::vector<unsigned char_1> hbuff;
+  while (hbuff.size( ) < hsize)
   {
-    std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    size_t pos = hbuff.size( );
+    size_t chunk = std::min(hsize-pos, (size_t) 1 << 20);
+    hbuff.resize(pos+chunk);
+    in.read((char_1 *) &hbuff[pos], chunk);
+    if (in.fail( ))
+    {
+      std::cerr << "Read error from HRIT file: Header body" << std::endl;
+      throw std::runtime_error("HRIT file: cannot read header records");
+    }
   }
-  unsigned char_1 *pnt = hbuff;
+  unsigned char_1 *pnt = hbuff.data( );
   size_t left = hsize;
   size_t hunk_size = 0;
   size_t hqlen = 0;
   while (left)
   {
+    // All records start with their type and their length
+    if (left < 3 || get_ui2(pnt+1) < 3 || get_ui2(pnt+1) > left)
+    {
+      std::cerr << "Error: Header record length mismatch." << std::endl;
+      throw std::runtime_error("HRIT file: header record does not fit in the header");
+    }
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -125,10 +147,9 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT file: wrong header record length");
         }
-        image_structure = new MSG_header_image_struct;
-        image_structure->read_from(pnt);
+        read_record(image_structure, pnt);
         pnt = pnt + MSG_IMAGE_STRUCTURE_LEN;
         left = left - MSG_IMAGE_STRUCTURE_LEN;
         break;
@@ -137,17 +158,15 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT file: wrong header record length");
         }
-        image_navigation = new MSG_header_image_navig;
-        image_navigation->read_from(pnt);
+        read_record(image_navigation, pnt);
         pnt = pnt + MSG_IMAGE_NAVIGATION_LEN;
         left = left - MSG_IMAGE_NAVIGATION_LEN;
         break;
       case MSG_HEADER_IMAGE_DATA_FUNCTION:
         hunk_size = (size_t) get_ui2(pnt+1);
-        image_data_function = new MSG_header_image_datafunc;
-        image_data_function->read_from(pnt);
+        read_record(image_data_function, pnt);
         pnt = pnt + hunk_size;
         left = left - hunk_size;
         break;
@@ -156,10 +175,9 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT file: wrong header record length");
         }
-        annotation = new MSG_header_annotation;
-        annotation->read_from(pnt);
+        read_record(annotation, pnt);
         pnt = pnt + MSG_ANNOTATION_LEN;
         left = left - MSG_ANNOTATION_LEN;
         break;
@@ -168,17 +186,15 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT file: wrong header record length");
         }
-        timestamp = new MSG_header_timestamp;
-        timestamp->read_from(pnt);
+        read_record(timestamp, pnt);
         pnt = pnt + MSG_TIMESTAMP_LEN;
         left = left - MSG_TIMESTAMP_LEN;
         break;
       case MSG_HEADER_ANCILLARY_TEXT:
         hunk_size = (size_t) get_ui2(pnt+1);
-        ancillary_text = new MSG_header_ancillary_text;
-        ancillary_text->read_from(pnt);
+        read_record(ancillary_text, pnt);
         pnt = pnt + hunk_size;
         left = left - hunk_size;
         break;
@@ -187,10 +203,9 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT file: wrong header record length");
         }
-        key = new MSG_header_key;
-        key->read_from(pnt);
+        read_record(key, pnt);
         pnt = pnt + MSG_KEY_LEN;
         left = left - MSG_KEY_LEN;
         break;
@@ -199,28 +214,35 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("HRIT file: wrong header record length");
         }
-        segment_id = new MSG_header_segment_id;
-        segment_id->read_from(pnt);
+        read_record(segment_id, pnt);
         pnt = pnt + MSG_SEGMENT_ID_LEN;
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        hqlen = get_ui2(pnt+1);
+        if (!image_structure ||
+            hqlen < 3 + (size_t) image_structure->number_of_lines
+                        * MSG_SEGMENT_QUALITY_RECORD_LEN)
+        {
+          std::cerr << "Error: Line Quality Header mismatch." << std::endl;
+          std::cerr << "Header Length: " << hqlen << std::endl;
+          throw std::runtime_error("HRIT file: line quality header does not match the image structure");
+        }
+        delete segment_quality;
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
-        hqlen = get_ui2(pnt+1);
         pnt = pnt + hqlen;
         left = left - hqlen;
         break;
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("HRIT file: unknown header record type");
         break;
       }
    }
-   delete [ ] hbuff;
    return;
 }
 
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..c66d874 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
 
@@ -56,16 +57,17 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid ancillary text header length");
   }
-  ancillary_text = new char_1[h_length];
+  ancillary_text = new char_1[h_length+1];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid ancillary text header length");
   }
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..d89b9b4 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
 MSG_header_image_datafunc::MSG_header_image_datafunc( )
@@ -49,14 +50,14 @@ void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid data function header length");
   }
   char_1 *tmpchar = new char_1[h_length];
   if (!tmpchar)
   {
     std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid data function header length");
   }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
-- 
2.43.0


From f17cde508ad41c699c6942df446bc9d94e606e3f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 003/166] fix: refuse xRIT data fields that are too short or
 lack their header

Prologues and epilogues shorter than their contents were read past their end, a
missing header record was dereferenced, errors terminated the process with a bare
throw, and the dump of uncompressed images, foreign prologues and the IMPF
configuration accessed data that was not there.
---
 msat/hrit/MSG_data.cpp       | 160 ++++++++++++++++++++---------------
 msat/hrit/MSG_data_gts.cpp   |   3 +-
 msat/hrit/MSG_data_image.cpp |   3 +-
 3 files changed, 94 insertions(+), 72 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..c3ffa6c 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -29,6 +29,10 @@
 
 #include <string>
 #include <fstream>
+#include <algorithm>
+#include <cstring>
+#include <stdexcept>
+#include <vector>
 #include <msat/hrit/MSG_data.h>
 
 std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_header &h )
@@ -53,6 +57,38 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_trailer &t )
   return os;
 }
 
+// Size in bytes of the level 1.5 header and trailer carried by prologue and
+// epilogue files
+static const size_t MSG_PROLOGUE_LEN = 425461;
+static const size_t MSG_EPILOGUE_LEN = 380325;
+
+// Read the data field, in chunks not to allocate memory for data that is not
+// there
+static std::vector<unsigned char_1> read_data_field( std::ifstream &in, size_t size )
+{
+  std::vector<unsigned char_1> res;
+  while (res.size( ) < size)
+  {
+    size_t pos = res.size( );
+    size_t chunk = std::min(size-pos, (size_t) 1 << 24);
+    res.resize(pos+chunk);
+    in.read((char *) &res[pos], chunk);
+    if (in.fail( ))
+    {
+      std::cerr << "Read error from HRIT file: Data field." << std::endl;
+      throw std::runtime_error("HRIT file: cannot read data field");
+    }
+  }
+  return res;
+}
+
+static const std::string& data_annotation( const MSG_header &header )
+{
+  if (!header.annotation)
+    throw std::runtime_error("HRIT file: annotation header is missing");
+  return header.annotation->annotation;
+}
+
 MSG_data::MSG_data( )
 {
   key_message  = 0;
@@ -64,7 +100,7 @@ MSG_data::MSG_data( )
   sdsprologue  = 0;
 }
 
-MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
+MSG_data::MSG_data( std::ifstream &in, MSG_header &header) : MSG_data( )
 {
   read_from(in, header);
 }
@@ -84,34 +120,32 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 {
   size_t dsize;
   size_t dpos;
-  unsigned char_1 *dbuff = 0;
+  std::vector<unsigned char_1> dbuff;
   unsigned char_1 *dpnt = 0;
 
   typecode = header.f_typecode;
   switch (typecode)
   {
     case MSG_FILE_IMAGE_DATA:
+      if (!header.image_structure)
+        throw std::runtime_error("HRIT file: image structure header is missing");
       image = new MSG_data_image;
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
       {
-        image->len = dsize;
+        image->len = dsize / sizeof(MSG_SAMPLE);
         image->data = (MSG_SAMPLE *) ( new char[dsize] );
-        memcpy(image->data, dbuff, dsize);
+        memcpy(image->data, dbuff.data( ), dsize);
       }
       else
       {
+        if (!header.segment_id)
+          throw std::runtime_error("HRIT file: segment identification header is missing");
         MSG_data_image_encoded encoded;
-        encoded.data   = dbuff;
+        encoded.data   = dbuff.data( );
         encoded.len    = dsize;
         encoded.bpp    = header.image_structure->number_of_bits_per_pixel;
         encoded.nx     = header.image_structure->number_of_columns;
@@ -124,18 +158,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_GTS_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
       gts_message = new MSG_data_gts;
-      dpos = gts_message->read_from(dbuff, dsize);
+      dpos = gts_message->read_from(dbuff.data( ), dsize);
       {
         std::string outname;
-        outname = header.annotation->annotation;
+        outname = data_annotation(header);
         outname += ".bin";
         gts_message->dump(outname);
       }
@@ -145,15 +173,9 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ALPHANUMERIC_TEXT:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
       text_message = new MSG_data_text;
-      dpos = text_message->read_from(dbuff, dsize);
+      dpos = text_message->read_from(dbuff.data( ), dsize);
 
 
       break;
@@ -161,36 +183,27 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
       key_message = new MSG_data_key;
-      dpos = key_message->read_from(dbuff, dsize);
+      dpos = key_message->read_from(dbuff.data( ), dsize);
 
       break;
 
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
       dsize = header.data_field_length / 8;
 
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
 
+      data_annotation(header);
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        if (dsize < MSG_PROLOGUE_LEN)
+          throw std::runtime_error("HRIT file: prologue is too short");
         prologue = new MSG_data_level_15_header;
 
 
-        dpnt = dbuff;
+        dpnt = dbuff.data( );
         dpos = prologue->sat_status.read_from(dpnt);
         dpnt += dpos;
         dpos = prologue->image_acquisition.read_from(dpnt);
@@ -215,7 +228,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
                header.annotation->product_id_1.find("METOP")
                       != std::string::npos)
       {
-        dpnt = dbuff;
+        dpnt = dbuff.data( );
+        // Common header (46 bytes), then a 4 bytes id and the length of the
+        // product specific header, itself included
+        if (dsize < 54 || get_ui4(dpnt+50) < 8 || get_ui4(dpnt+50) > dsize - 46)
+          throw std::runtime_error("HRIT file: SGS header does not fit in the prologue");
         sdsprologue = new MSG_data_SGS_header;
         dpos = sdsprologue->read_from(dpnt);
         dpnt += dpos;
@@ -223,7 +240,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       else if (header.annotation->product_id_1.find("MET5")
                       != std::string::npos)
       {
-        dpnt = dbuff;
+        dpnt = dbuff.data( );
         std::cout << "I have no info on MET5 file format !!!!" << std::endl;
       }
       else
@@ -232,20 +249,17 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
 
+      data_annotation(header);
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        if (dsize < MSG_EPILOGUE_LEN)
+          throw std::runtime_error("HRIT file: epilogue is too short");
         epilogue = new MSG_data_level_15_trailer;
 
-        dpnt = dbuff+1;
+        dpnt = dbuff.data( )+1;
         dpos = 1;
 
         dpos = epilogue->product_stats.read_from(dpnt);
@@ -269,34 +283,26 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_BINARY_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
-      }
+      dbuff = read_data_field(in, dsize);
       {
         std::ofstream os;
         std::string outname;
-        outname = header.annotation->annotation;
+        outname = data_annotation(header);
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
-        os.write((char *) dbuff, (size_t) dsize);
+          throw std::runtime_error(outname + ": cannot create file");
+        os.write((char *) dbuff.data( ), (size_t) dsize);
         os.close( );
       }
       break;
 
     default:
       std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
+      throw std::runtime_error("HRIT file: unknown file type");
       break;
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
@@ -320,10 +326,24 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
       os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      os << *(h.prologue);
+      // IMPF configuration is not disseminated in xRIT prologues
+      if (h.prologue)
+        os << h.prologue->sat_status
+           << h.prologue->image_acquisition
+           << h.prologue->celestial_events
+           << h.prologue->image_description
+           << h.prologue->radiometric_proc
+           << h.prologue->geometric_proc;
+      else if (h.sdsprologue)
+        os << *(h.sdsprologue);
+      else
+        os << "Unknown Image prologue file content" << std::endl;
       break;
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      os << *(h.epilogue);
+      if (h.epilogue)
+        os << *(h.epilogue);
+      else
+        os << "Unknown Image epilogue file content" << std::endl;
       break;
     case MSG_FILE_DCP_MESSAGE:
       os << "DCP message." << std::endl;
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 6c276f4..42465ff 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_gts.h>
 
 MSG_data_gts::MSG_data_gts( )
@@ -53,7 +54,7 @@ size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
   if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
     std::cerr << "Invalid GTS message(s) size." << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid GTS message size");
   }
 
   mbuff = new unsigned char_1[msize];
diff --git a/msat/hrit/MSG_data_image.cpp b/msat/hrit/MSG_data_image.cpp
index b642b75..1230fa7 100644
--- a/msat/hrit/MSG_data_image.cpp
+++ b/msat/hrit/MSG_data_image.cpp
@@ -29,6 +29,7 @@
 
 #include <vector>
 #include <cstring>
+#include <stdexcept>
 
 #include <Compress.h>
 #include <CompressT4.h>
@@ -64,7 +65,7 @@ void MSG_data_image_encoded::decode( MSG_data_image *dec )
       break;
     default:
       std::cerr << "Unknown compression used." << std::endl;
-      throw;
+      throw std::runtime_error("HRIT file: unknown image compression");
   }
 
   COMP::CImage cimg(udata);
-- 
2.43.0


From 213db1f96c77e4fbaa20d898615c56487541c835 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 004/166] fix: check the length of the SGS product specific
 header

---
 msat/hrit/MSG_data_SGS_header.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index b462f12..7cf48c8 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -30,6 +30,7 @@
 #include <fstream>
 #include <cstring>
 #include <iomanip>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_SGS_header.h>
 
 MSG_SGSCommonHeader::MSG_SGSCommonHeader( ) { }
@@ -75,8 +76,10 @@ std::ostream& operator<< (std::ostream& os, MSG_SGSCommonHeader &h)
      << std::endl
      << "Proc. Instance Id   : " << (uint_2) h.SGSProcessingInstanceId
      << std::endl
-     << "Base Algorithm      : " << h.BaseAlgorithmVersion << std::endl
-     << "Product Algorithm   : " << h.ProductAlgorithmVersion << std::endl;
+     << "Base Algorithm      : " << std::string(h.BaseAlgorithmVersion, strnlen(h.BaseAlgorithmVersion, 16))
+     << std::endl
+     << "Product Algorithm   : " << std::string(h.ProductAlgorithmVersion, strnlen(h.ProductAlgorithmVersion, 16))
+     << std::endl;
   return os;
 }
 
@@ -107,7 +110,10 @@ size_t MSG_SGSImageProductSpecificHeader::read_from(unsigned const char_1 *buff)
   position += 4;
   ImageProductSpecificHeaderLenght = get_ui4(buff+position);
   position += 4;
+  if (ImageProductSpecificHeaderLenght < 8)
+    throw std::runtime_error("HRIT file: SGS product specific header is too short");
   datlen = ImageProductSpecificHeaderLenght - 8;
+  delete [ ] ImageProductSpecificHeaderData;
   ImageProductSpecificHeaderData = new uint_1[datlen];
   memcpy(ImageProductSpecificHeaderData, buff+position, datlen);
   position += datlen;
@@ -117,8 +123,9 @@ size_t MSG_SGSImageProductSpecificHeader::read_from(unsigned const char_1 *buff)
 void MSG_SGSImageProductSpecificHeader::dump( )
 {
   std::ofstream dfile("hdump");
-  dfile.write((const char *) ImageProductSpecificHeaderData+1,
-              ImageProductSpecificHeaderLenght-9);
+  if (ImageProductSpecificHeaderLenght > 9)
+    dfile.write((const char *) ImageProductSpecificHeaderData+1,
+                ImageProductSpecificHeaderLenght-9);
   dfile.close();
   return;
 }
-- 
2.43.0


From 07a22c8e76fd66831d59b41f620dc1101cb09097 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 005/166] fix: print text and key messages that are not
 NUL-terminated

---
 msat/hrit/MSG_data_key.cpp  | 5 +++--
 msat/hrit/MSG_data_text.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 2671d73..fc99ad8 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_key.h>
 
 MSG_data_key::MSG_data_key( )
@@ -52,7 +53,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
   {
     std::cerr << "Key message number or size invalid." << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid key message number or size");
   }
 
   keys = new MSG_encryption_key[nkeys];
@@ -70,7 +71,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 
 std::ostream& operator<< ( std::ostream& os, MSG_encryption_key &k )
 {
-  std::string keystr = k.Public_key;
+  std::string keystr(k.Public_key, strnlen(k.Public_key, sizeof(k.Public_key)));
   os << "User Station Number : " << (uint_2) k.User_Station_number
      << std::endl
      << "Key Number          : " << (uint_2) k.Key_Number << std::endl
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8ee630d..8ac71a4 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -29,6 +29,7 @@
 
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_data_text.h>
 
 MSG_data_text::MSG_data_text( )
@@ -53,7 +54,7 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
   if (tsize == 0)
   {
     std::cerr << "Invalid TEXT message size." << std::endl;
-    throw;
+    throw std::runtime_error("HRIT file: invalid text message size");
   }
 
   tbuff = new unsigned char_1[tsize];
@@ -91,7 +92,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_text &t )
      << "-           MSG ALPHANUMERIC TEXT FILE               -" << std::endl
      << "------------------------------------------------------" << std::endl;
   os << "****************" << std::endl;
-  os << t.tbuff << std::endl;
+  os.write((const char *) t.tbuff, strnlen((const char *) t.tbuff, t.tsize)) << std::endl;
   os << "****************" << std::endl;
   return os;
 }
-- 
2.43.0


From 71982418b15e4bc36a13183a0923f41c5e0572b0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 006/166] fix: read number and key of encryption key messages
 at their position

---
 msat/hrit/MSG_data_key.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index fc99ad8..8af9e65 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -61,8 +61,8 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   for (int i = 0; i < nkeys; i ++)
   {
     keys[i].User_Station_number = get_ui2(pnt);
-    keys[i].Key_Number = *(pnt+1);
-    memcpy(keys[i].Public_key, pnt+2, 192);
+    keys[i].Key_Number = *(pnt+2);
+    memcpy(keys[i].Public_key, pnt+3, 192);
     keys[i].Public_Key_CRC = get_ui2(pnt+195);
     pnt = pnt + MSG_KEY_MESSAGE_LEN;
   }
-- 
2.43.0


From f378d372a721044c35a9b54169131140a5a2991b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 007/166] fix: parse any projection name in image navigation
 headers

---
 msat/hrit/MSG_header_image_navig.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..2a5aa86 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -35,9 +35,13 @@
 MSG_header_image_navig::MSG_header_image_navig( )
 {
   satellite_h = 42164.0;
+  subsatellite_longitude = 0.0;
+  projection_plane = 0.0;
+  projection_longitude = 0.0;
 }
 
 MSG_header_image_navig::MSG_header_image_navig( unsigned const char_1 *buff )
+  : MSG_header_image_navig( )
 {
   read_from(buff);
 }
@@ -46,8 +50,9 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
@@ -70,10 +75,10 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
     projection_name[5] = 0;
     pname = projection_name;
     tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
+    if (tmp != NULL) *tmp = 0;
     sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
-    sscanf(tmp, "%f", &projection_longitude);
+    if (tmp != NULL)
+      sscanf(tmp+1, "%f", &projection_longitude);
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
     pname = "PSD";
-- 
2.43.0


From 11ec9fdb6a20a10055c1b2c3c331a962b04993a7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 008/166] fix: do not overflow the pixel count of large images

---
 msat/hrit/MSG_header_image_struct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_image_struct.cpp b/msat/hrit/MSG_header_image_struct.cpp
index 9097f13..6fa8ec9 100644
--- a/msat/hrit/MSG_header_image_struct.cpp
+++ b/msat/hrit/MSG_header_image_struct.cpp
@@ -46,7 +46,7 @@ void MSG_header_image_struct::read_from( unsigned const char_1 *buff )
   number_of_columns         = get_ui2(buff+4);
   number_of_lines           = get_ui2(buff+6);
   compression_flag          = (t_enum_MSG_image_compression) buff[8];
-  image_pixels              = number_of_columns * number_of_lines;
+  image_pixels              = (uint_8) number_of_columns * number_of_lines;
   image_size                = (image_pixels*number_of_bits_per_pixel) / 8;
   if ((image_pixels*number_of_bits_per_pixel) % 8) image_size ++;
   return;
-- 
2.43.0


From 9548ba73d0789f8dbedfbd07aa5b49a3f2fab1db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 009/166] fix: decode and print radiometric processing fields
 from their own position

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 18 ++++++++++++------
 msat/hrit/MSG_data_RadiometricProc.h   |  6 +-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..22481f8 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -361,7 +361,13 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
+  // 42 values of 12 bits each
+  for (int i = 0; i < 42; i += 2)
+  {
+    unsigned const char_1 *dcr = buff + position + i/2*3;
+    DCRValues[i]   = (dcr[0] << 4) | (dcr[1] >> 4);
+    DCRValues[i+1] = ((dcr[1] & 0xf) << 8) | dcr[2];
+  }
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
@@ -406,9 +412,9 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   position += 2;
   FCURedundantBlackBodySensorTemp = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCUNominalSMMStatus, buff+position, 2);
+  FCUNominalSMMStatus.status = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCURedundantSMMStatus, buff+position, 2);
+  FCURedundantSMMStatus.status = get_ui2(buff+position);
   position += 2;
   for (int i = 0; i < 12; i ++)
     position += ExtractedBBData[i].read_from(buff+position);
@@ -442,10 +448,10 @@ std::ostream& operator<< ( std::ostream& os, MSG_BlackBodyDataUsed &b )
   for (int i = 0; i < 15; i ++)
     os << "PU Bias " << std::setw(2) << std::setfill('0') << i+1
        << "         : " << b.PUBias[i] << std::endl;
-  for (int i = 0; i < 12; i ++)
+  for (int i = 0; i < 42; i ++)
     os << "DCR Values " << std::setw(2) << std::setfill('0') << i+1
        << "       : "
-       << std::setw(3) << std::setfill('0') << std::hex << b.DCRValues[i].Value
+       << std::setw(3) << std::setfill('0') << std::hex << b.DCRValues[i]
        << std::dec << std::endl;
   os << "Deep Space Win      : "
      << MSG_DeepSpace_Window_Position(b.XDeepSpaceWindowPosition) << std::endl
@@ -556,7 +562,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_RadiometricProc &t )
        << " : " << std::endl;
     for(int j = 0; j < 8; j ++)
     {
-      for(int k = 0; k < 8; k += 8)
+      for(int k = 0; k < 8; k += 4)
       {
         os << std::setw(12) << std::setfill(' ')
            << t.StraylightCorrection[i][j][k]   << " "
diff --git a/msat/hrit/MSG_data_RadiometricProc.h b/msat/hrit/MSG_data_RadiometricProc.h
index 72af7b7..d65a870 100644
--- a/msat/hrit/MSG_data_RadiometricProc.h
+++ b/msat/hrit/MSG_data_RadiometricProc.h
@@ -108,10 +108,6 @@ class MSG_IMPF_CAL_Data {
     real_4                                 OffsetCount;
 };
 
-typedef struct {
-  uint_2 Value:12;
-} __attribute__((packed)) t_MSG_DCR_Value;
-
 typedef struct {
   uint_2 status:16;
 } __attribute__((packed)) t_MSG_SMMStatus;
@@ -131,7 +127,7 @@ class MSG_BlackBodyDataUsed {
     uint_2                               PUGain[42];
     uint_2                               PUOffset[27];
     uint_2                               PUBias[15];
-    t_MSG_DCR_Value                      DCRValues[12];
+    uint_2                               DCRValues[42];
     t_enum_MSG_DeepSpace_Window_Position XDeepSpaceWindowPosition;
     uint_2                               FCUNominalColdFocalPlaneTemp;
     uint_2                               FCURedundantColdFocalPlaneTemp;
-- 
2.43.0


From cabb1c2da3534b76ebc22792f9711add2f96e350 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 010/166] fix: let radiance_to_reflectance accept the channels
 it supports

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 22481f8..9f06ad2 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <iomanip>
 #include <cmath>
+#include <stdexcept>
 #include <msat/facts.h>
 #include <msat/hrit/MSG_data_RadiometricProc.h>
 
@@ -670,10 +671,10 @@ float radiance_to_reflectance(int chnum, float radiance,
                               int hour, int minute,
                               float lat, float lon)
 {
-  if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
+  if (chnum != 1 && chnum != 2 && chnum != 3 && chnum != 12)
   {
     std::cerr << "Wrong channel number : " << chnum << std::endl;
-    throw;
+    throw std::runtime_error("cannot compute reflectance: wrong channel number");
   }
 
   int jd = msat::facts::jday(year, month, day);
@@ -686,6 +687,6 @@ float radiance_to_reflectance(int chnum, float radiance,
   double cos_sza = msat::facts::cos_sol_za(year, month, day, hour, minute, lat, lon);
   // Use cos(80°) as lower bound, to avoid division by zero
   if (cos_sza < cos80)
-    return cos80;
+    cos_sza = cos80;
   return 100.0 * radiance / tr / cos_sza;
 }
-- 
2.43.0


From 8f3fc0d00a46dc921280aa1e771225296a0d236f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 011/166] fix: read the spin rate of landmark observations at
 its position

---
 msat/hrit/MSG_data_NavigExtrResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
-- 
2.43.0


From 188e94f700de59b44dc4ab7bad0523679c3707ed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 012/166] fix: read the resampling function of each channel

---
 msat/hrit/MSG_data_GeometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
-- 
2.43.0


From ef90b59f68d0c40baf61d8562de06b332408e044 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 013/166] fix: print the timeliness flag of the image validity

---
 msat/hrit/MSG_data_ImageProdStats.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/hrit/MSG_data_ImageProdStats.cpp b/msat/hrit/MSG_data_ImageProdStats.cpp
index 73745e4..3729220 100644
--- a/msat/hrit/MSG_data_ImageProdStats.cpp
+++ b/msat/hrit/MSG_data_ImageProdStats.cpp
@@ -138,6 +138,8 @@ std::ostream& operator<< ( std::ostream& os, MSG_L15ImageValidity &v )
      << std::endl
      << "Non Geometric OK    : " << (uint_2) v.NonNominalGeometricQuality
      << std::endl
+     << "Non Timeliness OK   : " << (uint_2) v.NonNominalTimeliness
+     << std::endl
      << "Incomplete L 1.5    : " << (uint_2) v.IncompleteL15 << std::endl;
   return os;
 }
-- 
2.43.0


From 5820139d75ec741a4956be2cb36cfcf6d64cb970 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 014/166] fix: do not divide by zero when printing nearly empty
 histograms

---
 msat/hrit/MSG_data_RadiometricQuality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricQuality.cpp b/msat/hrit/MSG_data_RadiometricQuality.cpp
index 7a54295..504bf67 100644
--- a/msat/hrit/MSG_data_RadiometricQuality.cpp
+++ b/msat/hrit/MSG_data_RadiometricQuality.cpp
@@ -512,6 +512,6 @@ uint_4 maxistogram(uint_4 *istogram, int_4 len)
   uint_4 maxval = 0;
   for (int i = 0; i < len; i ++)
     if (maxval < istogram[i]) maxval = istogram[i];
-  if (maxval == 0) return 1;
+  if (maxval < 76) return 1;
   return maxval/76;
 }
-- 
2.43.0


From a484698e8daff95f1ba7ace30d8dd83f454e2733 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 015/166] fix: do not return a pointer to a destroyed string
 from get_timechar

---
 msat/hrit/MSG_time_cds.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..12d2fe5 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -122,7 +122,9 @@ std::string MSG_time_cds_short::get_timestring( ) const
 
 char_1 *MSG_time_cds_short::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static thread_local std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_short &h )
@@ -247,7 +249,9 @@ std::string MSG_time_cds_expanded::get_timestring( ) const
 
 char_1 *MSG_time_cds_expanded::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static thread_local std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_expanded &h )
@@ -310,7 +314,9 @@ std::string MSG_time_cds::get_timestring( ) const
 
 char_1 *MSG_time_cds::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static thread_local std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds &h )
@@ -377,7 +383,9 @@ std::string MSG_time_generalized::get_timestring( ) const
 
 char_1 *MSG_time_generalized::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static thread_local std::string timechar;
+  timechar = get_timestring( );
+  return (char_1 *) timechar.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_generalized &h )
-- 
2.43.0


From dc73f9125433dd26c8c3703a02542963b13b5215 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 016/166] fix: read generalized times within their field, as
 UTC

---
 msat/hrit/MSG_time_cds.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 12d2fe5..db3b1f1 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -344,7 +344,8 @@ MSG_time_generalized::~MSG_time_generalized( ) { }
 
 size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 {
-  sscanf((char *) buff, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
+  std::string text((const char *) buff, 15);
+  sscanf(text.c_str( ), "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
          &generalized_time.tm_mon,  &generalized_time.tm_mday,
          &generalized_time.tm_hour, &generalized_time.tm_min,
          &generalized_time.tm_sec);
@@ -355,7 +356,7 @@ size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 
 time_t MSG_time_generalized::get_unixtime( )
 {
-  return mktime(&generalized_time);
+  return timegm(&generalized_time);
 }
 
 struct tm *MSG_time_generalized::get_timestruct( )
-- 
2.43.0


From e17918ee9b999c3fe2e71184c9c89df2599fd87e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 017/166] fix: forget the records of a header that was read
 before

---
 msat/hrit/MSG_header.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 5190ec3..e9f7044 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -89,6 +89,17 @@ void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
 
+  // Forget the records of a header that was read before
+  delete image_structure;     image_structure = 0;
+  delete image_navigation;    image_navigation = 0;
+  delete image_data_function; image_data_function = 0;
+  delete annotation;          annotation = 0;
+  delete timestamp;           timestamp = 0;
+  delete ancillary_text;      ancillary_text = 0;
+  delete key;                 key = 0;
+  delete segment_id;          segment_id = 0;
+  delete segment_quality;     segment_quality = 0;
+
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
-- 
2.43.0


From 6e4905d34e0ea46bfc78987b0197ab10b532b85e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 018/166] fix: keep the xRIT segment cache valid when a segment
 cannot be loaded

---
 msat/xrit/dataaccess.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index fe6a8e6..6ded3f4 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -23,6 +23,7 @@
 #include <msat/xrit/dataaccess.h>
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
+#include <memory>
 #include <stdexcept>
 
 using namespace std;
@@ -172,6 +173,19 @@ MSG_data* DataAccess::segment(size_t idx) const
         if (idx >= segnames.size()) return 0;
         if (segnames[idx].empty()) return 0;
 
+        // Load the segment
+        // ProgressTask p("Reading segment " + segnames[idx]);
+        MSG_header header;
+        std::unique_ptr<MSG_data> data(new MSG_data);
+        read_file(segnames[idx].c_str(), header, *data);
+
+        // Make sure it still is what was found when scanning
+        if (!data->image || data->image->len < npixperseg
+                || !header.image_structure
+                || header.image_structure->number_of_columns != columns
+                || header.image_structure->number_of_lines != seglines)
+            throw std::runtime_error(segnames[idx] + ": segment does not match the other segments of the product");
+
         // Remove the last recently used if the cache is full
         if (segcache.size() == 2)
         {
@@ -179,15 +193,10 @@ MSG_data* DataAccess::segment(size_t idx) const
             segcache.pop_back();
         }
 
-        // Load the segment
-        // ProgressTask p("Reading segment " + segnames[idx]);
-        MSG_header header;
+        // Put it in the front
         scache new_scache;
-        new_scache.segment = new MSG_data;
+        new_scache.segment = data.release();
         new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
-
-        // Put it in the front
         segcache.push_front(new_scache);
     } else {
         // The segment is in the cache: bring it to the front
-- 
2.43.0


From 656f897fb0eba6acfc523f02c88aef29937b170c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 019/166] fix: check xRIT products for the headers they need
 before using them

---
 msat/xrit/dataaccess.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 6ded3f4..78e9a35 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -34,6 +34,10 @@ namespace xrit {
 // Lines of the full-disk HRV reference grid
 static const size_t HRV_GRID_LINES = 11136;
 
+// Columns of the full-disk reference grid
+static const size_t GRID_COLUMNS_HRV = 11136;
+static const size_t GRID_COLUMNS = 3712;
+
 DataAccess::DataAccess() : npixperseg(0)
 {
 }
@@ -82,6 +86,11 @@ void DataAccess::scanSegment(const MSG_header& header)
     npixperseg = columns * seglines;
     hrv = header.segment_id->spectral_channel_id == MSG_SEVIRI_1_5_HRV;
 
+    if (!npixperseg)
+        throw std::runtime_error("image segments have no pixels");
+    if (columns > (hrv ? GRID_COLUMNS_HRV : GRID_COLUMNS))
+        throw std::runtime_error("image segments are wider than the full disk");
+
     // See if the image needs to be rotated
     swapX = header.image_navigation->column_scaling_factor < 0;
     swapY = header.image_navigation->line_scaling_factor < 0;
@@ -92,12 +101,18 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     // Read prologue
     MSG_header PRO_head;
     //p.activity("Reading prologue " + opts.prologueFile());
-    read_file(fa.prologueFile(), PRO_head, pro);
+    std::string file = fa.prologueFile();
+    read_file(file, PRO_head, pro);
+    if (!pro.prologue)
+        throw std::runtime_error(file + ": file is not a prologue");
 
     // Read epilogue
     MSG_header EPI_head;
     //p.activity("Reading epilogue " + opts.epilogueFile());
-    read_file(fa.epilogueFile(), EPI_head, epi);
+    file = fa.epilogueFile();
+    read_file(file, EPI_head, epi);
+    if (!epi.epilogue)
+        throw std::runtime_error(file + ": file is not an epilogue");
 
     // Sort the segment names by their index
     vector<string> segfiles = fa.segmentFiles();
@@ -105,6 +120,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id || !header.image_structure || !header.image_navigation)
+            throw std::runtime_error(i + ": file is not an image segment");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
-- 
2.43.0


From 86b1c4412d5f4cfba082250f75e783941ed4e659 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 020/166] fix: check channel, sample depth and windows of xRIT
 images

---
 gdal/xrit/rasterband.cpp | 16 ++++++++++++++--
 gdal/xrit/rasterband.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..6da00f7 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -3,12 +3,14 @@
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <stdexcept>
+#include <string>
 
 namespace msat {
 namespace xrit {
 
 XRITRasterBand::XRITRasterBand(XRITDataset* ds, int idx)
-    : xds(ds), calibration(0)
+    : xds(ds), calibration(0), calibration_size(0)
 {
     poDS = ds;
     nBand = idx;
@@ -35,6 +37,8 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     char buf[25];
     snprintf(buf, 25, "%d", channel_id);
     SetMetadataItem(MD_MSAT_CHANNEL_ID, buf, MD_DOMAIN_MSAT);
+    if (channel_id < 1 || channel_id > 12)
+        throw std::runtime_error("unknown spectral channel " + std::string(buf));
     const char* channelName = facts::channelName(xds->spacecraft_id, channel_id);
     SetMetadataItem(MD_MSAT_CHANNEL, channelName, MD_DOMAIN_MSAT);
 
@@ -48,6 +52,9 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     if (!linear)
     {
         int bpp = header.image_structure->number_of_bits_per_pixel;
+        if (bpp < 1 || bpp > 16)
+            throw std::runtime_error("unsupported number of bits per pixel " + std::to_string(bpp));
+        calibration_size = 1 << bpp;
         calibration = PRO_data.prologue->radiometric_proc.get_calibration(channel_id, bpp);
     }
 
@@ -77,6 +84,11 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     size_t linestart = xds->da.line_start(yblock);
+    if (xds->da.columns > (size_t)nBlockXSize || linestart > nBlockXSize - xds->da.columns)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Image window exceeds the reference grid");
+        return CE_Failure;
+    }
 
     if (linear)
     {
@@ -90,7 +102,7 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
             fbuf[i] = 0.0;
         for (size_t i = 0; i < xds->da.columns; ++i)
         {
-            float res = calibration[rawbuf[i]];
+            float res = rawbuf[i] < calibration_size ? calibration[rawbuf[i]] : 0;
             if (res < 0 || isnan(res)) res = 0;
             fbuf[linestart + i] = res;
         }
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 4c1ad79..7269149 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -18,6 +18,7 @@ public:
     bool linear;
     int channel_id;
     float* calibration;
+    size_t calibration_size;
 
     XRITRasterBand(XRITDataset* ds, int idx);
     ~XRITRasterBand();
-- 
2.43.0


From cd862fa6ecb256810de3d440edbd31b0ca82301c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 021/166] fix: do not throw exceptions through GDAL's block
 cache

---
 gdal/xrit/rasterband.cpp | 11 +++++++++++
 gdal/xrit/rasterband.h   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index 6da00f7..6d74c5a 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -76,6 +76,17 @@ const char* XRITRasterBand::GetUnitType()
 }
 
 CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
+{
+    // Exceptions cannot go through GDAL's block cache
+    try {
+        return read_block(xblock, yblock, buf);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+        return CE_Failure;
+    }
+}
+
+CPLErr XRITRasterBand::read_block(int xblock, int yblock, void *buf)
 {
     if (xblock != 0)
     {
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 7269149..e482c8d 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -29,6 +29,8 @@ public:
 
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override;
 
+    CPLErr read_block(int xblock, int yblock, void *buf);
+
     double GetOffset(int* pbSuccess=NULL) override;
     double GetScale(int* pbSuccess=NULL) override;
     double GetNoDataValue(int* pbSuccess=NULL) override;
-- 
2.43.0


From b8eb280b328b31c2098cdfd3e60635a1206dcb30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 022/166] fix: report xRIT open errors the GDAL way

---
 gdal/xrit/xrit.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gdal/xrit/xrit.cpp b/gdal/xrit/xrit.cpp
index 76620d8..2df3667 100644
--- a/gdal/xrit/xrit.cpp
+++ b/gdal/xrit/xrit.cpp
@@ -15,7 +15,7 @@ namespace xrit {
 
 GDALDataset* XRITOpen(GDALOpenInfo* info);
 
-GDALDataset* XRITOpen(GDALOpenInfo* info)
+static GDALDataset* open_dataset(GDALOpenInfo* info)
 {
     // Se if it looks like a XRIT filename
     if (!msat::xrit::isValid(info->pszFilename))
@@ -77,6 +77,17 @@ GDALDataset* XRITOpen(GDALOpenInfo* info)
     }
 }
 
+GDALDataset* XRITOpen(GDALOpenInfo* info)
+{
+    // GDAL's callers need not be C++ code that can catch exceptions
+    try {
+        return open_dataset(info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_OpenFailed, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
+}
+
 }
 }
 
-- 
2.43.0


From 23b6d391c8b1f4ee06b30f5593f174e9dea85ce2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 023/166] fix: derive xRIT file names only from well-formed
 product names

---
 msat/xrit/fileaccess.cpp | 107 ++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 47 deletions(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ad68e24..2d59050 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -38,12 +38,14 @@ namespace xrit {
 static std::string underscoreit(const std::string& base, int final_len)
 {
 	string res = base;
-	res.resize(final_len, '_');
+	if (res.size() < (size_t)final_len)
+		res.resize(final_len, '_');
 	return res;
 }
 
 static std::string deunderscore(const std::string& str)
 {
+    if (str.empty()) return str;
     size_t pos = str.size() - 1;
     while (pos > 0 && str[pos] == '_')
         --pos;
@@ -143,6 +145,9 @@ void FileAccess::parse(const std::string& filename)
         if ((end = filename.find('-', beg)) == string::npos)
             throw std::runtime_error("XRIT segment " + filename + " is not in the form [directory/]resolution-nnn-xxxxxx-productid1-productid2-datetime-C_");
         timing = deunderscore(filename.substr(beg, end-beg));
+
+        if (filename.compare(end + 1, string::npos, "C_") != 0)
+            throw std::runtime_error("XRIT segment " + filename + " is not in the form [directory/]resolution-nnn-xxxxxx-productid1-productid2-datetime-C_");
     } else {
         // Parse shortened form [directory/]resolution:productid1:productid2:datetime
         if ((end = filename.find(':', beg)) == string::npos)
@@ -164,6 +169,34 @@ void FileAccess::parse(const std::string& filename)
     }
 }
 
+// Escape the characters that have a meaning in glob patterns
+static std::string globescape(const std::string& str)
+{
+    string res;
+    for (char c: str)
+    {
+        if (c == '\\' || c == '*' || c == '?' || c == '[' || c == ']')
+            res += '\\';
+        res += c;
+    }
+    return res;
+}
+
+// Expand a glob pattern
+static std::vector<std::string> glob_files(const std::string& pattern)
+{
+    glob_t globbuf;
+    int err = glob(pattern.c_str(), 0, NULL, &globbuf);
+    std::vector<std::string> res;
+    if (err == 0)
+        for (size_t i = 0; i < globbuf.gl_pathc; ++i)
+            res.push_back(globbuf.gl_pathv[i]);
+    globfree(&globbuf);
+    if (res.empty())
+        throw std::runtime_error("No such file(s)");
+    return res;
+}
+
 void FileAccess::ensureComplete() const
 {
 	if (directory.empty())
@@ -180,78 +213,58 @@ void FileAccess::ensureComplete() const
 
 std::string FileAccess::prologueFile() const
 {
-  std::string filename = directory
+  ensureComplete();
+
+  std::string filename = globescape(directory)
 		       + PATH_SEPARATOR
-					 + resolution
+					 + globescape(resolution)
 		       + "-" "???" "-" "??????" "-" // Split to avoid warnings on trigraphs
-					 + underscoreit(productid1, 12) + "-"
+					 + globescape(underscoreit(productid1, 12)) + "-"
 					 + underscoreit("_", 9) + "-"
 					 + "PRO______-"
-					 + timing
+					 + globescape(timing)
 					 + "-__";
 
-  glob_t globbuf;
-  globbuf.gl_offs = 1;
-
-  if ((glob(filename.c_str(), GLOB_DOOFFS, NULL, &globbuf)) != 0)
-    throw std::runtime_error("No such file(s)");
-
-  if (globbuf.gl_pathc > 1)
+  std::vector<std::string> files = glob_files(filename);
+  if (files.size() > 1)
     throw std::runtime_error("Non univoque prologue file.... Do not trust calibration.");
-
-	string res(globbuf.gl_pathv[1]);
-  globfree(&globbuf);
-  return res;
+  return files[0];
 }
 
 std::string FileAccess::epilogueFile() const
 {
-  std::string filename = directory
+  ensureComplete();
+
+  std::string filename = globescape(directory)
 		       + PATH_SEPARATOR
-					 + resolution
+					 + globescape(resolution)
 		       + "-???" "-??????" "-"  // Split to avoid warnings on trigraphs
-					 + underscoreit(productid1, 12) + "-"
+					 + globescape(underscoreit(productid1, 12)) + "-"
 					 + underscoreit("_", 9) + "-"
 					 + "EPI______-"
-					 + timing
+					 + globescape(timing)
 					 + "-__";
 
-  glob_t globbuf;
-  globbuf.gl_offs = 1;
-
-  if ((glob(filename.c_str(), GLOB_DOOFFS, NULL, &globbuf)) != 0)
-    throw std::runtime_error("No such file(s)");
-
-  if (globbuf.gl_pathc > 1)
+  std::vector<std::string> files = glob_files(filename);
+  if (files.size() > 1)
     throw std::runtime_error("Non univoque prologue file.... Do not trust calibration.");
-
-	string res(globbuf.gl_pathv[1]);
-  globfree(&globbuf);
-  return res;
+  return files[0];
 }
 
 std::vector<std::string> FileAccess::segmentFiles() const
 {
-    string filename = directory
+    ensureComplete();
+
+    string filename = globescape(directory)
         + PATH_SEPARATOR
-        + resolution
+        + globescape(resolution)
         + "-???" "-??????" "-"  // Split to avoid warnings on trigraphs
-        + underscoreit(productid1, 12) + "-"
-        + underscoreit(productid2, 9) + "-"
+        + globescape(underscoreit(productid1, 12)) + "-"
+        + globescape(underscoreit(productid2, 9)) + "-"
         + "0?????___" + "-"
-        + timing + "-" + "C_";
-
-    glob_t globbuf;
-    globbuf.gl_offs = 1;
-
-    if ((glob(filename.c_str( ), GLOB_DOOFFS, NULL, &globbuf)) != 0)
-        throw std::runtime_error("No such file(s)");
+        + globescape(timing) + "-" + "C_";
 
-    std::vector<std::string> res;
-    for (size_t i = 0; i < globbuf.gl_pathc; ++i)
-        res.push_back(globbuf.gl_pathv[i+1]);
-    globfree(&globbuf);
-    return res;
+    return glob_files(filename);
 }
 
 std::string FileAccess::toString() const
-- 
2.43.0


From d7b7a628939e9a432822a2d7850720e09e897093 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 024/166] fix: do not crash dumping xRIT products with uniform
 segments

---
 tools/hrit/xritdump.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index d855111..b73352e 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -27,6 +27,7 @@
 #include <msat/hrit/MSG_HRIT.h>
 
 #include <stdint.h>
+#include <algorithm>
 #include <set>
 #include <string>
 #include <vector>
@@ -48,6 +49,14 @@ static void do_help(const char* argv0, ostream& out)
             << "  --help           Print this help message" << endl;
 }
 
+// Character representing a sample in an ascii-art rendition
+static char aachar(MSG_SAMPLE s, MSG_SAMPLE min, MSG_SAMPLE max)
+{
+        static const string aachars = " .,-:=$#";
+        if (max <= min || s <= min) return aachars[0];
+        return aachars[std::min((s - min) * aachars.size() / (max - min), aachars.size() - 1)];
+}
+
 static void do_dump(const char* name)
 {
         FileAccess fa(name);
@@ -83,7 +92,6 @@ static void do_dump(const char* name)
                      << "WestColumnActual: " << da.WestColumnActual << endl;
         }
 
-        string aachars = " .,-:=$#";
         MSG_SAMPLE compmin = 0xffff, compmax = 0;
         for (size_t i = 0; i < da.segnames.size(); ++i)
         {
@@ -114,7 +122,7 @@ static void do_dump(const char* name)
                                 size_t px = x * da.columns / charx;
                                 size_t py = y * da.seglines / chary;
                                 MSG_SAMPLE s = d->image->data[py * da.columns + px];
-                                char c = aachars[(s-min) * aachars.size() / (max-min)];
+                                char c = aachar(s, min, max);
                                 cout << c;
                         }
                         cout << endl;
@@ -141,7 +149,7 @@ static void do_dump(const char* name)
                 {
                         size_t px = x * comp_sx / charx;
                         MSG_SAMPLE s = buf[px];
-                        char c = aachars[(s-compmin) * aachars.size() / (compmax-compmin)];
+                        char c = aachar(s, compmin, compmax);
                         cout << c;
                 }
                 cout << endl;
-- 
2.43.0


From 9c98c50933800053a82718c4e315420c5bde9028 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 025/166] fix: take the georeference of derived products only
 from an accepted source

---
 gdal/reflectance/base.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gdal/reflectance/base.cpp b/gdal/reflectance/base.cpp
index 843745a..45ea5be 100644
--- a/gdal/reflectance/base.cpp
+++ b/gdal/reflectance/base.cpp
@@ -14,13 +14,9 @@ ProxyDataset::~ProxyDataset() {
 
 void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
 {
-    if (!osr)
-    {
-        const OGRSpatialReference* source_spatial_ref = ds->GetSpatialRef();
-        if (!source_spatial_ref)
-            throw std::runtime_error(dsname + ": trying to add source without a spatial definition");
-        osr = source_spatial_ref->Clone();
-    }
+    const OGRSpatialReference* source_spatial_ref = ds->GetSpatialRef();
+    if (!source_spatial_ref)
+        throw std::runtime_error(dsname + ": trying to add source without a spatial definition");
 
     double gt[6];
     if (ds->GetGeoTransform(gt) == CE_Failure)
@@ -39,11 +35,13 @@ void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
         if (SetMetadata(metadata, MD_DOMAIN_MSAT) == CE_Failure)
             throw std::runtime_error(dsname + ": cannot set metadata from source dataset");
         datetime = mdtime;
+        delete osr;
+        osr = source_spatial_ref->Clone();
 
         nRasterXSize = ds->GetRasterXSize();
         nRasterYSize = ds->GetRasterYSize();
     } else {
-        if (!osr->IsSame(ds->GetSpatialRef()))
+        if (!osr->IsSame(source_spatial_ref))
             throw std::runtime_error(dsname + ": inconsistent projection definitions in source datasets");
         if (memcmp(geotransform, gt, 6 * sizeof(double)) != 0)
             throw std::runtime_error(dsname + ": inconsistent affine geotransform coefficients in source datasets");
-- 
2.43.0


From eae3bf252e3d8c1a63fd91d9a0b61211131a9109 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 026/166] fix: do not leak sources that a reflectance dataset
 does not use

---
 gdal/reflectance/reflectance.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index a715aea..e76e101 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -28,6 +28,9 @@ ReflectanceDataset::~ReflectanceDataset()
 
 void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
 {
+    if (take_ownership)
+        owned_datasets.insert(ds);
+
     for (int i = 1; i <= ds->GetRasterCount(); ++i)
     {
         GDALRasterBand* rb = ds->GetRasterBand(i);
@@ -40,8 +43,6 @@ void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
         add_info(ds, "ReflectanceDataset");
 
         sources[id - 1] = rb;
-        if (take_ownership)
-            owned_datasets.insert(ds);
     }
 }
 
-- 
2.43.0


From 4ec67f56fbe736cc4418c3e322b1dbb05a066970 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 027/166] fix: do not leak the source of a derived dataset that
 cannot be created

---
 gdal/utils.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index 6e0f524..9af3ecd 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -13,16 +13,20 @@ using namespace std;
 namespace msat {
 namespace gdal {
 
-GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
+GDALDataset* add_extras(GDALDataset* source, GDALOpenInfo* info)
 {
+    // Do not leak the source if the wrapper cannot be created
+    unique_ptr<GDALDataset> src(source);
 #if GDAL_VERSION_MAJOR >= 2
     int idx = CSLFindName(info->papszOpenOptions, "MSAT_COMPUTE");
-    if (idx == -1) return src;
+    if (idx == -1) return src.release();
     std::string val(CPLParseNameValue(info->papszOpenOptions[idx], nullptr));
 
     if (val == "reflectance")
     {
         GDALRasterBand* rb = src->GetRasterBand(1);
+        if (rb == nullptr)
+            throw std::runtime_error("cannot compute reflectance of a dataset without raster bands");
         const char* str_id = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
         if (str_id == nullptr)
             throw std::runtime_error("cannot compute reflectance of a channel without " MD_DOMAIN_MSAT "/" MD_MSAT_CHANNEL_ID " metadata");
@@ -31,29 +35,25 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
             throw std::runtime_error("IR 0.39 reflectance cannot yet be computed via MSAT_COMPUTE open option");
 
         unique_ptr<msat::utils::ReflectanceDataset> rds(new msat::utils::ReflectanceDataset(channel_id));
-        rds->add_source(src, true);
+        rds->add_source(src.release(), true);
         rds->init_rasterband();
         return rds.release();
     } else if (val == "sat_za") {
-        unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src));
-        delete src;
+        unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src.get()));
         return rds.release();
     } else if (val == "cos_sol_za") {
-        unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src));
-        delete src;
+        unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src.get()));
         return rds.release();
     } else if (val == "jday") {
-        unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src));
-        delete src;
+        unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src.get()));
         return rds.release();
     } else {
-        delete src;
         CPLError(CE_Failure, CPLE_AppDefined, "Unsupported value '%s' for MSAT_COMPUTE", val.c_str());
         return nullptr;
     }
 #endif
 
-    return src;
+    return src.release();
 }
 
 }
-- 
2.43.0


From 625b20736922268d664ecb0e29a69a31490b6b04 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 028/166] fix: compute satellite zenith angles from the
 subsatellite point

---
 gdal/reflectance/pixeltolatlon.cpp | 1 +
 gdal/reflectance/pixeltolatlon.h   | 2 ++
 gdal/reflectance/reflectance.cpp   | 2 +-
 gdal/reflectance/sat_za.cpp        | 2 +-
 4 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 35fcdb2..3a6a9f9 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -16,6 +16,7 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
         throw std::runtime_error("no projection name found in input dataset");
 
     proj = osr->Clone();
+    sublon = proj->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 0.0);
     latlon = proj->CloneGeogCS();
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
diff --git a/gdal/reflectance/pixeltolatlon.h b/gdal/reflectance/pixeltolatlon.h
index 4a1c6fb..bc6d543 100644
--- a/gdal/reflectance/pixeltolatlon.h
+++ b/gdal/reflectance/pixeltolatlon.h
@@ -13,6 +13,8 @@ struct PixelToLatlon
     OGRSpatialReference* proj = nullptr;
     OGRSpatialReference* latlon = nullptr;
     OGRCoordinateTransformation* toLatLon = nullptr;
+    /// Subsatellite longitude
+    double sublon = 0;
 
     PixelToLatlon(GDALDataset* ds);
     ~PixelToLatlon();
diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index e76e101..317298e 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -281,7 +281,7 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
         double cosTETA = facts::cos_sol_za(jday, daytime, lats[i], lons[i]);
         // Use cos(80°) as lower bound, to avoid division by zero
         if (cosTETA < cos80) cosTETA = cos80;
-        double SAT = facts::sat_za(lats[i], lons[i]);
+        double SAT = facts::sat_za(lats[i], lons[i] - p2ll->sublon);
         // Original from MMKM2010:
         //double TOARAD = 4.92 / (esd*esd) * cosTETA * exp(-(1-R39_corr)) * exp(-(1-R39_corr) * cosTETA / cos(SAT));
         // Version from MSGProc:
diff --git a/gdal/reflectance/sat_za.cpp b/gdal/reflectance/sat_za.cpp
index da40a80..c136fb7 100644
--- a/gdal/reflectance/sat_za.cpp
+++ b/gdal/reflectance/sat_za.cpp
@@ -48,7 +48,7 @@ public:
         for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
         {
             // Just the solar zenith angle
-            dest[i] = facts::sat_za(lats[i], lons[i]);
+            dest[i] = facts::sat_za(lats[i], lons[i] - p2ll->sublon);
             // Normalise outliars
             switch (fpclassify(dest[i]))
             {
-- 
2.43.0


From a1cc21693c04f0b21219732bf2ebf76d97766d68 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 029/166] fix: compute reflectances also of blocks past the
 edge of the raster

---
 gdal/reflectance/reflectance.cpp | 27 +++++++++++++++++++--------
 gdal/reflectance/reflectance.h   |  3 +++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index 317298e..a88dbb5 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -95,6 +95,17 @@ double ReflectanceRasterBand::GetNoDataValue(int* pbSuccess)
     return 0.0;
 }
 
+CPLErr ReflectanceRasterBand::read_source(GDALRasterBand* rb, int xblock, int yblock, std::vector<double>& values)
+{
+    // Values of the block that are past the edge of the raster are left at 0
+    values.assign(nBlockXSize * nBlockYSize, 0.0);
+    int x = xblock * nBlockXSize;
+    int y = yblock * nBlockYSize;
+    int sx = std::min(nBlockXSize, rb->GetXSize() - x);
+    int sy = std::min(nBlockYSize, rb->GetYSize() - y);
+    return rb->RasterIO(GF_Read, x, y, sx, sy, values.data(), sx, sy, GDT_Float64, sizeof(double), sizeof(double) * nBlockXSize);
+}
+
 
 SingleChannelReflectanceRasterBand::SingleChannelReflectanceRasterBand(ReflectanceDataset* ds, int idx)
     : ReflectanceRasterBand(ds, idx)
@@ -131,8 +142,8 @@ SingleChannelReflectanceRasterBand::~SingleChannelReflectanceRasterBand()
 CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the raw data
-    std::vector<double> raw(nBlockXSize * nBlockYSize);
-    if (source_rb->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    std::vector<double> raw;
+    if (read_source(source_rb, xblock, yblock, raw) == CE_Failure)
         return CE_Failure;
 
     // Precompute pixel georeferentiation
@@ -210,18 +221,18 @@ Reflectance39RasterBand::~Reflectance39RasterBand()
 CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the IR 3.9 data
-    std::vector<double> raw039(nBlockXSize * nBlockYSize);
-    if (source_ir039->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw039.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    std::vector<double> raw039;
+    if (read_source(source_ir039, xblock, yblock, raw039) == CE_Failure)
         return CE_Failure;
 
     // Read the IR_10.8 channel
-    std::vector<double> raw108(nBlockXSize * nBlockYSize);
-    if (source_ir108->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw108.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    std::vector<double> raw108;
+    if (read_source(source_ir108, xblock, yblock, raw108) == CE_Failure)
         return CE_Failure;
 
     // Read the IR_13.4 channel
-    std::vector<double> raw134(nBlockXSize * nBlockYSize);
-    if (source_ir134->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw134.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    std::vector<double> raw134;
+    if (read_source(source_ir134, xblock, yblock, raw134) == CE_Failure)
         return CE_Failure;
 
     // Precompute pixel georeferentiation
diff --git a/gdal/reflectance/reflectance.h b/gdal/reflectance/reflectance.h
index 6b3a2de..7e5a983 100644
--- a/gdal/reflectance/reflectance.h
+++ b/gdal/reflectance/reflectance.h
@@ -68,6 +68,9 @@ public:
     double GetOffset(int* pbSuccess=NULL) override;
     double GetScale(int* pbSuccess=NULL) override;
     double GetNoDataValue(int* pbSuccess=NULL) override;
+
+    /// Read the values of a block of the source band
+    CPLErr read_source(GDALRasterBand* rb, int xblock, int yblock, std::vector<double>& values);
 };
 
 class SingleChannelReflectanceRasterBand : public ReflectanceRasterBand
-- 
2.43.0


From 69e6d461328aef1f27aacb6468086cf5426dea6d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 030/166] fix: do not compute reflectances where the source has
 no data

---
 gdal/reflectance/reflectance.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index a88dbb5..528abb9 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -46,6 +46,20 @@ void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
     }
 }
 
+namespace {
+
+/// Check if value is the missing value of the raster band
+struct Missing
+{
+    int present = FALSE;
+    double value;
+
+    explicit Missing(GDALRasterBand* rb) : value(rb->GetNoDataValue(&present)) {}
+
+    bool operator()(double v) const { return present && v == value; }
+};
+
+}
 
 // cos(80deg)
 #define cos80 0.173648178
@@ -152,9 +166,16 @@ CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, vo
     p2ll->compute(xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, lats.data(), lons.data());
 
     // Compute reflectances
+    Missing missing(source_rb);
     float* dest = (float*)buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        // There is no reflectance without a measurement
+        if (missing(raw[i]))
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // From counts to radiance
         double radiance = raw[i] * rad_slope + rad_offset;
         double cossza = facts::cos_sol_za(jday, daytime, lats[i], lons[i]);
@@ -266,9 +287,16 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
     double esd = 1.0 - 0.0167 * cos( 2.0 * M_PI * (jday - 3) / 365.0);
 
     // Compute reflectances
+    Missing missing039(source_ir039), missing108(source_ir108), missing134(source_ir134);
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        // There is no reflectance without all three measurements
+        if (missing039(raw039[i]) || missing108(raw108[i]) || missing134(raw134[i]))
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // We can compute radiance from counts straight away
         //double R_tot = (raw039[i] * rad_slope) + rad_offset;
         // But we use the Brightness Temperature instead, so we can apply CO2
-- 
2.43.0


From 8d0f3123f8f6ddd76f5dedf80111ff418576838e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 031/166] fix: do not trace GRIB operations to a file in /tmp

---
 gdal/grib/utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c5605d4..ba45023 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -8,7 +8,7 @@
 
 // Define this if you want to create a foile /tmp/trace-gribapi with a trace of
 // all grib_api operations
-#define TRACE_GRIBAPI
+// #define TRACE_GRIBAPI
 
 #ifdef TRACE_GRIBAPI
 #include <cstdio>
@@ -47,6 +47,7 @@ struct Grib
 #ifdef TRACE_GRIBAPI
     FILE* trace = nullptr;
     #define trace(...) do {\
+            if (!trace) break; \
             fprintf(trace, "GH %p: ", static_cast<const void*>(gh)); \
             fprintf(trace, __VA_ARGS__); \
             fprintf(trace, "\n"); \
@@ -83,7 +84,7 @@ struct Grib
 #endif
     }
     ~Grib() {
-        if (trace) trace("close");
+        trace("close");
         if (gh) grib_handle_delete(gh);
 #ifdef TRACE_GRIBAPI
         if (trace) fclose(trace);
-- 
2.43.0


From d9b9a077efc1cd7c56e642d172d3d7c3545bbfe4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 032/166] fix: report failures to write GRIB files

---
 gdal/grib/grib.cpp | 9 ++++++---
 gdal/grib/utils.h  | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 47aece5..b2a2033 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -608,7 +608,8 @@ struct CreateGRIB2 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB2");
+        if (grib.new_from_samples(NULL, "GRIB2") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -782,7 +783,8 @@ struct CreateGRIB1 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB1");
+        if (grib.new_from_samples(NULL, "GRIB1") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -861,7 +863,8 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
             return nullptr;
         }
 
-        grib.write(pszFilename);
+        if (grib.write(pszFilename) != CE_None)
+            return nullptr;
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index ba45023..3a26b66 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -340,7 +340,11 @@ struct Grib
         }
         trace("written to file %s", filename.c_str());
 
-        fclose(out);
+        if (fclose(out) != 0)
+        {
+            CPLError(CE_Failure, CPLE_FileIO, "cannot write to file %s", filename.c_str());
+            return CE_Failure;
+        }
         trace("flushed");
         return CE_None;
     }
-- 
2.43.0


From fd4652e71614697328c8a470fa2a72526140e044 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 033/166] fix: report GRIB errors the GDAL way

---
 gdal/grib/grib.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index b2a2033..e3985b2 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -69,7 +69,11 @@ public:
 		}
 
 		size_t length = nRasterXSize * nRasterYSize;
-		grib.get_double_array("values", (double*)buf, &length);
+		try {
+			grib.get_double_array("values", (double*)buf, &length);
+		} catch (griberror& e) {
+			return CE_Failure;
+		}
 		if (length != (size_t)(nRasterXSize * nRasterYSize)) {
 			CPLError(CE_Failure, CPLE_AppDefined, "Only %d values read instead of %d", (int)length, nRasterXSize * nRasterYSize);
 			return CE_Failure;
@@ -220,13 +224,18 @@ GDALDataset* GRIBOpen(GDALOpenInfo* info)
     if (grib.new_from_file(NULL, info->pszFilename) != CE_None)
         return NULL;
 
-    // Create the dataset
-    unique_ptr<GRIBDataset> ds(new GRIBDataset(move(grib)));
+    try {
+        // Create the dataset
+        unique_ptr<GRIBDataset> ds(new GRIBDataset(move(grib)));
 
-    // Initialise the dataset
-    if (!ds->init()) return NULL;
+        // Initialise the dataset
+        if (!ds->init()) return NULL;
 
-    return msat::gdal::add_extras(ds.release(), info);
+        return msat::gdal::add_extras(ds.release(), info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
 }
 
 #if 0
@@ -869,6 +878,9 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
         return nullptr;
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s: %s", pszFilename, e.what());
+        return nullptr;
     }
 }
 
-- 
2.43.0


From e98b32020d740480f50533561b4fcaf1ff6eeaf6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 034/166] fix: refuse GRIB files with impossible image sizes

---
 gdal/grib/grib.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index e3985b2..09723f6 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -6,6 +6,7 @@
 #include <gdal/gdal_priv.h>
 #include <gdal/ogr_spatialref.h>
 #include "gdal/utils.h"
+#include <climits>
 #include <memory>
 
 #include "config.h"
@@ -94,8 +95,15 @@ public:
 	bool init()
 	{
 		try {
-			nRasterXSize = grib.get_long("numberOfPointsAlongXAxis");
-			nRasterYSize = grib.get_long("numberOfPointsAlongYAxis");
+			long xsize = grib.get_long("numberOfPointsAlongXAxis");
+			long ysize = grib.get_long("numberOfPointsAlongYAxis");
+			if (xsize <= 0 || ysize <= 0 || xsize > INT_MAX / ysize)
+			{
+				CPLError(CE_Failure, CPLE_AppDefined, "unsupported image size %ldx%ld", xsize, ysize);
+				return false;
+			}
+			nRasterXSize = xsize;
+			nRasterYSize = ysize;
 			nBands = 1;
 
 			// Datetime
-- 
2.43.0


From 67ad68bf1608515cfb5d97ee238a3b0ef5938216 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 035/166] fix: refuse to encode as GRIB datasets without bands
 or georeference

---
 gdal/grib/grib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 09723f6..93b01e8 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -7,6 +7,7 @@
 #include <gdal/ogr_spatialref.h>
 #include "gdal/utils.h"
 #include <climits>
+#include <cmath>
 #include <memory>
 
 #include "config.h"
@@ -349,7 +350,7 @@ struct CreateGRIB
         }
 
         // Read values
-        values.resize(src->GetRasterXSize() * src->GetRasterYSize());
+        values.resize((size_t)src->GetRasterXSize() * src->GetRasterYSize());
         if (rb->RasterIO(GF_Read, 0, 0, src->GetRasterXSize(), src->GetRasterYSize(), values.data(), src->GetRasterXSize(), src->GetRasterYSize(), GDT_Float64, 0, 0) != CE_None)
             return false;
 
@@ -360,7 +361,7 @@ struct CreateGRIB
         grib_missing = missing * scale + offset;
         for (auto& v: values)
         {
-            if (v == missing)
+            if (v == missing || (std::isnan(v) && std::isnan(missing)))
             {
                 ++count_missing;
                 v = grib_missing;
@@ -857,6 +858,12 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
                               int bStrict, char** papszOptions,
                               GDALProgressFunc pfnProgress, void* pProgressData)
 {
+    if (src->GetRasterCount() < 1 || src->GetSpatialRef() == nullptr)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "cannot encode a dataset that has no raster band or no georeference");
+        return nullptr;
+    }
+
     try {
         const char* templateName = CSLFetchNameValue(papszOptions, "TEMPLATE");
         if (templateName == NULL)
-- 
2.43.0


From 185805a4335d68636fa352a5d8b47bd478245841 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 036/166] fix: use the published band correction of channel WV
 6.2

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 9f06ad2..5908277 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -598,7 +598,7 @@ float *MSG_data_RadiometricProc::get_calibration(int channel, int bpp)
                               //    4        5        6        7
                                  0.9999,  0.9983,  0.9988,  0.9981 };
                               //    8        9       10       11
-    const double cold_B[8] = { 3.471,   2.2219,  0.485,   0.181, 
+    const double cold_B[8] = { 3.471,   2.219,   0.485,   0.181, 
                               //    4        5        6        7
                                0.060,   0.627,   0.397,   0.576  };
                               //    8        9       10       11
@@ -638,7 +638,7 @@ void MSG_data_RadiometricProc::get_slope_offset(int channel, double& slope, doub
                               //    4        5        6        7
                                  0.9999,  0.9983,  0.9988,  0.9981 };
                               //    8        9       10       11
-    const double cold_B[8] = { 3.471,   2.2219,  0.485,   0.181, 
+    const double cold_B[8] = { 3.471,   2.219,   0.485,   0.181, 
                               //    4        5        6        7
                                0.060,   0.627,   0.397,   0.576  };
                               //    8        9       10       11
-- 
2.43.0


From 26b5aec845f1eb2505b53ea29959f681f2790fc3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 037/166] fix: do not share broken down times among threads

---
 msat/hrit/MSG_time_cds.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index db3b1f1..e338641 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -95,14 +95,18 @@ time_t MSG_time_cds_short::get_unixtime( )
 
 struct tm *MSG_time_cds_short::get_timestruct( )
 {
-  return gmtime(&unixtime);
+  // gmtime() shares its result among all threads
+  static thread_local struct tm timestruct;
+  return gmtime_r(&unixtime, &timestruct);
 }
 
 std::string MSG_time_cds_short::get_timestring( )
 {
   std::string timestring;
   char_1 tempchar[128];
-  strftime(tempchar, 128, "%Y-%m-%d %H:%M:%S", gmtime(&unixtime));
+  struct tm timestruct;
+  strftime(tempchar, 128, "%Y-%m-%d %H:%M:%S",
+           gmtime_r(&unixtime, &timestruct));
   timestring = tempchar;
   sprintf(tempchar, " +%03d msecs", (unsigned int) usecs);
   timestring = timestring + tempchar;
@@ -113,7 +117,9 @@ std::string MSG_time_cds_short::get_timestring( ) const
 {
   std::string timestring;
   char_1 tempchar[128];
-  strftime(tempchar, 128, "%Y-%m-%d %H:%M:%S", gmtime(&unixtime));
+  struct tm timestruct;
+  strftime(tempchar, 128, "%Y-%m-%d %H:%M:%S",
+           gmtime_r(&unixtime, &timestruct));
   timestring = tempchar;
   sprintf(tempchar, " +%03d msecs", (unsigned int) usecs);
   timestring = timestring + tempchar;
-- 
2.43.0


From 9e4277efe8eca64e4d6d3962013064f0e5e7b692 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 038/166] fix: report projections that cannot be converted to
 coordinates

---
 gdal/reflectance/pixeltolatlon.cpp | 13 +++++++++++--
 msat/gdal/dataset.cpp              | 10 ++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 3a6a9f9..2ba29c9 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -18,8 +18,17 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
     proj = osr->Clone();
     sublon = proj->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 0.0);
     latlon = proj->CloneGeogCS();
-    latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
-    toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    if (latlon)
+    {
+        latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
+        toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    }
+    if (!toLatLon)
+    {
+        delete proj;
+        delete latlon;
+        throw std::runtime_error("cannot convert the projection of the input dataset to latitude and longitude");
+    }
 #if GDAL_VERSION_MAJOR >= 3
     toLatLon->SetEmitErrors(false);
 #endif
diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..7907fb2 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -212,12 +212,22 @@ CPLErr GeoReferencer::init(GDALDataset* ds)
     proj = osr->Clone();
     proj->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     latlon = proj->CloneGeogCS();
+    if (!latlon)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "the projection of the input dataset has no geographic coordinates");
+        return CE_Failure;
+    }
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
     fromLatLon = OGRCreateCoordinateTransformation(latlon, proj);
 
 	delete proj; proj = 0;
 	delete latlon; latlon = 0;
+	if (!toLatLon || !fromLatLon)
+	{
+		CPLError(CE_Failure, CPLE_AppDefined, "cannot convert the projection of the input dataset to latitude and longitude");
+		return CE_Failure;
+	}
 	return CE_None;
 }
 
-- 
2.43.0


From 0a251456d31ff62b48cce6f3e96e7799c133b257 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 039/166] fix: use the WMO code numbers of the MTSAT satellites

---
 msat/facts.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/msat/facts.cpp b/msat/facts.cpp
index ed1dd22..d2f9dae 100644
--- a/msat/facts.cpp
+++ b/msat/facts.cpp
@@ -217,8 +217,8 @@ int spacecraftIDFromHRIT(int id)
                 case MSG_GMS_4        : return 151;
                 case MSG_GMS_5        : return 152;
         //      case MSG_GMS_6        : return ;
-                case MSG_MTSAT_1      : return 58;
-                case MSG_MTSAT_2      : return 59;
+                case MSG_MTSAT_1      : return 171;
+                case MSG_MTSAT_2      : return 172;
                 default:                return 1023;
         }
 }
@@ -254,8 +254,8 @@ int spacecraftIDToHRIT(int id)
                 case 311:  return MSG_GOMS_2;
                 case 151:  return MSG_GMS_4;
                 case 152:  return MSG_GMS_5;
-                case 58:   return MSG_MTSAT_1;
-                case 59:   return MSG_MTSAT_2;
+                case 171:  return MSG_MTSAT_1;
+                case 172:  return MSG_MTSAT_2;
                 default:   return MSG_NO_SPACECRAFT;
         }
 }
@@ -276,8 +276,8 @@ const char* spacecraftName(int spacecraft_id)
                 case 55: return "MSG1";
                 case 56: return "MSG2";
                 case 57: return "MSG3";
-                case 58: return "MTSAT1";
-                case 59: return "MTSAT2";
+                case 171: return "MTSAT1";
+                case 172: return "MTSAT2";
                 case 70: return "MSG4";
                 case 150: return "GMS3";
                 case 151: return "GMS4";
@@ -312,8 +312,8 @@ int spacecraftID(const std::string& name)
         if (name == "MSG1")         return   55;
         if (name == "MSG2")         return   56;
         if (name == "MSG3")         return   57;
-        if (name == "MTSAT1")       return   58;
-        if (name == "MTSAT2")       return   59;
+        if (name == "MTSAT1")       return  171;
+        if (name == "MTSAT2")       return  172;
         if (name == "MSG4")         return   70;
         if (name == "GMS3")         return  150;
         if (name == "GMS4")         return  151;
-- 
2.43.0


From 62478a21e20969130c4230429614d0753ad3082a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 040/166] fix: recode to the requested size, and report areas
 that cannot be read

The size given to recode was not used, and the result of a failed
translation was passed on to the output driver.
---
 msat/gdal/dataset.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 7907fb2..9a8d42a 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -23,6 +23,7 @@
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <string>
 
 using namespace std;
 
@@ -124,7 +125,17 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	// Scale only if asked to
+	string scaleX = to_string(sx);
+	string scaleY = to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = scaleX.c_str();
+		translate.pszOYSize = scaleY.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
+	if (vds == NULL) return NULL;
 
 	char** options = 0;
 	if (!opt1.empty()) options = CSLAddString(options, opt1.c_str());
-- 
2.43.0


From f609a8ed14bab0fdd807040a0d3f5cb2b051a08b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 041/166] fix: keep missing values missing in calibrated
 datasets

A count that marks missing data was calibrated like the others, so it did
not match the no data value of the calibrated band any more. The counts
are also read on the heap, as big blocks did not fit in the stack.
---
 msat/gdal/dataset.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 9a8d42a..81fe215 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -24,6 +24,7 @@
 #include <msat/facts.h>
 #include <stdint.h>
 #include <string>
+#include <vector>
 
 using namespace std;
 
@@ -406,17 +407,24 @@ double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
-    // Read the raw data
-    uint16_t raw[nBlockXSize * nBlockYSize];
-    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
+    // Read the raw data. It can be too big for the stack
+    std::vector<uint16_t> raw(nBlockXSize * nBlockYSize);
+    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
+    // Missing values are still to be missing after calibration
+    int has_nodata = FALSE;
+    double nodata = rb.GetNoDataValue(&has_nodata);
+
     // Compute reflectances
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
         // Calibrate from counts to radiance
-        dest[i] = raw[i] * scale + ofs;
+        if (has_nodata && raw[i] == nodata)
+            dest[i] = 0;
+        else
+            dest[i] = raw[i] * scale + ofs;
     }
 
     return CE_None;
-- 
2.43.0


From 2cab8b1dbd8eb8e3f1aff946f2348838dde57ad5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 042/166] fix: refuse crops and output sizes that are out of
 range

Crops with a huge width went through the bounds check because of an integer
overflow, and empty or negative output sizes gave broken images.
---
 msat/gdal/gdaltranslate.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..5c11e7d 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -37,6 +37,7 @@
 #include <gdal_priv.h>
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
+#include <climits>
 #include <ostream>
 
 using namespace std;
@@ -44,6 +45,16 @@ using namespace std;
 CPL_CVSID("$Id: gdal_translate.cpp 15640 2008-10-29 20:19:56Z rouault $");
 
 static void AttachMetadata( GDALDatasetH, char ** );
+
+// Output size in pixels, from a number of pixels or a percentage of srcSize
+static double OutputSize( const char* pszSize, int srcSize )
+{
+    size_t len = strlen(pszSize);
+    if( len > 0 && pszSize[len - 1] == '%' )
+        return CPLAtof(pszSize) / 100 * srcSize;
+    return CPLAtof(pszSize);
+}
+
 // static int bSubCall = FALSE;
 
 GDALTranslate::GDALTranslate()
@@ -282,8 +293,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
     if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
         || anSrcWin[2] <= 0 || anSrcWin[3] <= 0
-        || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-        || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+        || anSrcWin[0] > GDALGetRasterXSize(hDataset) - anSrcWin[2]
+        || anSrcWin[1] > GDALGetRasterYSize(hDataset) - anSrcWin[3] )
     {
         CPLError(CE_Failure, CPLE_AppDefined, 
                  "-srcwin %d %d %d %d falls outside raster size of %dx%d "
@@ -324,10 +335,17 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     }
     else
     {
-        nOXSize = (int) ((pszOXSize[strlen(pszOXSize)-1]=='%' 
-                          ? atof(pszOXSize)/100*anSrcWin[2] : atoi(pszOXSize)));
-        nOYSize = (int) ((pszOYSize[strlen(pszOYSize)-1]=='%' 
-                          ? atof(pszOYSize)/100*anSrcWin[3] : atoi(pszOYSize)));
+        double dfOXSize = OutputSize( pszOXSize, anSrcWin[2] );
+        double dfOYSize = OutputSize( pszOYSize, anSrcWin[3] );
+        if( !(dfOXSize >= 1 && dfOXSize <= INT_MAX
+              && dfOYSize >= 1 && dfOYSize <= INT_MAX) )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined,
+                     "Output size %s,%s is not valid.", pszOXSize, pszOYSize );
+            return NULL;
+        }
+        nOXSize = (int) dfOXSize;
+        nOYSize = (int) dfOYSize;
     }
     
 /* ==================================================================== */
-- 
2.43.0


From ce9080a057b5d8aca6c1f3dc6a9adf8fc14f740c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 043/166] fix: process each input file of msat independently of
 the others

The size and the raster bands of a file were also used for the files after
it on the command line.
---
 tools/msat.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9f3ab6d..992017c 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -334,7 +334,7 @@ struct Msat
     void parse_cmdline(int argc, char* argv[]);
     int main();
 
-    void scale_if_needed(GDALDataset& ds)
+    void scale_if_needed(GDALDataset& ds, GDALTranslate& translate)
     {
         // Scale down image to fit in maxx x maxy
         size_t sx = ds.GetRasterXSize();
@@ -563,6 +563,9 @@ int Msat::main()
 {
     for (vector<string>::const_iterator i = input_files.begin(); i != input_files.end(); ++i)
     {
+            // What is worked out for one file must not affect the next ones
+            GDALTranslate translate(this->translate);
+
             unique_ptr<GDALDataset> dataset((GDALDataset*)GDALOpen(i->c_str(), GA_ReadOnly));
             if (dataset.get() == NULL)
             {
@@ -661,7 +664,7 @@ int Msat::main()
                     translate.anSrcWin[3] = ymax - ymin;
             }
 
-            scale_if_needed(*dataset);
+            scale_if_needed(*dataset, translate);
 
             GDALDataset* vds = translate.translate(dataset.get());
             //translate.dump(cerr);
-- 
2.43.0


From ce1e864c996eac02efe9e1d1cf287aa0f0467bae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 044/166] fix: report files that cannot be cropped, and missing
 metadata templates

msat crashed instead.
---
 tools/msat.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 992017c..7a398bf 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -668,10 +668,20 @@ int Msat::main()
 
             GDALDataset* vds = translate.translate(dataset.get());
             //translate.dump(cerr);
+            if (vds == NULL)
+            {
+                    cerr << CPLGetLastErrorMsg() << endl;
+                    return 1;
+            }
 
             if (!mdtemplate.empty())
             {
                     unique_ptr<GDALDataset> mdds((GDALDataset*)GDALOpen(mdtemplate.c_str(), GA_ReadOnly));
+                    if (mdds.get() == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
 
                     // Copy metadata from mdds to vds
                     vds->SetDescription(mdds->GetDescription());
-- 
2.43.0


From 2f7aa8cde277b24991a622bb992756d5b8e977c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 045/166] fix: do not replace metadata in the input dataset

With --copymd and no other change, msat replaced the metadata of the input
itself: GDAL saved them beside the input, or calibrated datasets ignored
them.
---
 tools/msat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 7a398bf..eada379 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -666,6 +666,10 @@ int Msat::main()
 
             scale_if_needed(*dataset, translate);
 
+            // Metadata are to be replaced in a copy, not in the input dataset
+            if (!mdtemplate.empty())
+                    translate.bDefBands = FALSE;
+
             GDALDataset* vds = translate.translate(dataset.get());
             //translate.dump(cerr);
             if (vds == NULL)
-- 
2.43.0


From 647965edd15498b86308189b5dfb0a7a0ef6739a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 046/166] fix: enclose the whole requested area in msat --Area

Parallels and meridians are curves in satellite images: only looking at the
corners left out part of the area, and so did leaving out the last row and
column.
---
 tools/msat.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index eada379..a3fadbc 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <iomanip>
 
+#include <climits>
 #include <cstdlib>
 #include <getopt.h>
 
@@ -640,28 +641,37 @@ int Msat::main()
                             cerr << CPLGetLastErrorMsg() << endl;
                             return 1;
                     }
-                    int xmin = dataset->GetRasterXSize(),
-                        ymin = dataset->GetRasterYSize(),
-                        xmax = 0, ymax = 0;
-                    for (size_t i = 0; i < 2; ++i)
-                            for (size_t j = 0; j < 2; ++j)
+                    // The sides of the area are curves in the image: follow
+                    // them, as the corners alone may not enclose it
+                    const int steps = 100;
+                    int xmin = INT_MAX, ymin = INT_MAX, xmax = INT_MIN, ymax = INT_MIN;
+                    for (int i = 0; i <= steps; ++i)
+                    {
+                            double ilat = lat[0] + (lat[1] - lat[0]) * i / steps;
+                            double ilon = lon[0] + (lon[1] - lon[0]) * i / steps;
+                            const double side[4][2] = {
+                                    { ilat, lon[0] }, { ilat, lon[1] },
+                                    { lat[0], ilon }, { lat[1], ilon },
+                            };
+                            for (const auto& p: side)
                             {
                                     int x, y;
-                                    if (gr.latlonToPixel(lat[i], lon[j], x, y) != CE_None)
+                                    if (gr.latlonToPixel(p[0], p[1], x, y) != CE_None)
                                     {
                                             cerr << CPLGetLastErrorMsg() << endl;
                                             return 1;
                                     }
-                                    if (x < xmin) xmin = x;
-                                    if (x > xmax) xmax = x;
-                                    if (y < ymin) ymin = y;
-                                    if (y > ymax) ymax = y;
+                                    xmin = min(xmin, x);
+                                    xmax = max(xmax, x);
+                                    ymin = min(ymin, y);
+                                    ymax = max(ymax, y);
                             }
+                    }
 
                     translate.anSrcWin[0] = xmin;
                     translate.anSrcWin[1] = ymin;
-                    translate.anSrcWin[2] = xmax - xmin;
-                    translate.anSrcWin[3] = ymax - ymin;
+                    translate.anSrcWin[2] = xmax - xmin + 1;
+                    translate.anSrcWin[3] = ymax - ymin + 1;
             }
 
             scale_if_needed(*dataset, translate);
-- 
2.43.0


From 8ea5f6a5232c9ef09b85f4add609af5614202e01 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 047/166] fix: make msat --around work with projected images

Latitude and longitude were used as projected coordinates. Also do not take
an area around 0,0 as if no area was given.
---
 tools/msat.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index a3fadbc..e46bc00 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -299,6 +299,7 @@ struct Msat
     string scaleX, scaleY;
     double lat[2];
     double lon[2];
+    bool has_area;
 
     // Output driver
     string outdriver;
@@ -330,6 +331,7 @@ struct Msat
     {
         lat[0] = lat[1] = 0;
         lon[0] = lon[1] = 0;
+        has_area = false;
         maxx = maxy = 0;
     }
     void parse_cmdline(int argc, char* argv[]);
@@ -444,20 +446,22 @@ void Msat::parse_cmdline(int argc, char* argv[])
                                     do_help(argv[0], cerr);
                                     exit(1);
                             }
+                            has_area = true;
                             has_size = true;
                             break;
                     case 'C': { // --around
-                            double lat, lon, h, w;
-                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &lat,&lon,&h,&w) != 4)
+                            double clat, clon, h, w;
+                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &clat,&clon,&h,&w) != 4)
                             {
                                     cerr << "around value should be in the format lat,lon,lath,lonw" << endl;
                                     do_help(argv[0], cerr);
                                     exit(1);
                             }
-                            translate.dfLRY = lat - h/2;
-                            translate.dfULY = lat + h/2;
-                            translate.dfULX = lon - w/2;
-                            translate.dfLRX = lon + w/2;
+                            lat[0] = clat - h/2;
+                            lat[1] = clat + h/2;
+                            lon[0] = clon - w/2;
+                            lon[1] = clon + w/2;
+                            has_area = true;
                             has_size = true;
                             break;
                     }
@@ -631,9 +635,9 @@ int Msat::main()
                 }
             }
 
-            // If --Area is given, we can only resolve it to pixel
+            // If --Area or --around is given, we can only resolve it to pixel
             // sizes once we have the dataset
-            if (lat[0] != 0 || lat[1] != 0 || lon[0] != 0 || lon[1] != 0)
+            if (has_area)
             {
                     msat::dataset::GeoReferencer gr;
                     if (gr.init(dataset.get()) != CE_None)
-- 
2.43.0


From a4168a8be899062294f7eb191b600382ae14b602 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 048/166] fix: do not scale thin images down to nothing

---
 tools/msat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index e46bc00..9198d98 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -354,7 +354,9 @@ struct Msat
                 tx = tx * maxy / ty;
                 ty = maxy;
         }
-        if (tx != sx && ty != sy)
+        if (tx == 0) tx = 1;
+        if (ty == 0) ty = 1;
+        if (tx != sx || ty != sy)
         {
             cerr << "Note: image scaled down to " << tx << "x" << ty << " to prevent excessive memory usage." << endl;
             cerr << "      you can set one of --area, --Area, --around, or --resize to prevent this." << endl;
-- 
2.43.0


From 8e9e1061a58dc6da8b392433282566f8959b3766 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 049/166] fix: recognise the HRV grid of GRIB images

---
 msat/facts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/facts.cpp b/msat/facts.cpp
index d2f9dae..0989793 100644
--- a/msat/facts.cpp
+++ b/msat/facts.cpp
@@ -166,6 +166,7 @@ double pixelHSizeFromSeviriDX(int dx)
                 // Handle well-known values
                 case 3608: return METEOSAT_PIXELSIZE_X;
                 case 3622: return METEOSAT_PIXELSIZE_X;
+                case 10867: return METEOSAT_PIXELSIZE_X_HRV;
                 default:
                         return pixelHSizeFromCFAC(CFACFromSeviriDX(dx));
         }
@@ -178,6 +179,7 @@ double pixelVSizeFromSeviriDY(int dy)
                 // Handle well-known values
                 case 3608: return METEOSAT_PIXELSIZE_Y;
                 case 3622: return METEOSAT_PIXELSIZE_Y;
+                case 10867: return METEOSAT_PIXELSIZE_Y_HRV;
                 default:
                         return pixelVSizeFromLFAC(LFACFromSeviriDY(dy));
         }
-- 
2.43.0


From 77aa442cd466ea88e546cb6d259e4600aa1a2e6c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 050/166] fix: keep missing values apart from data when writing
 GRIB

---
 gdal/grib/grib.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 93b01e8..f404513 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -6,8 +6,10 @@
 #include <gdal/gdal_priv.h>
 #include <gdal/ogr_spatialref.h>
 #include "gdal/utils.h"
+#include <algorithm>
 #include <climits>
 #include <cmath>
+#include <limits>
 #include <memory>
 
 #include "config.h"
@@ -358,17 +360,27 @@ struct CreateGRIB
         double missing = rb->GetNoDataValue();
         double offset = rb->GetOffset();
         double scale = rb->GetScale();
-        grib_missing = missing * scale + offset;
+        double lowest = std::numeric_limits<double>::max();
         for (auto& v: values)
         {
-            if (v == missing || (std::isnan(v) && std::isnan(missing)))
+            if (v == missing || std::isnan(v))
             {
                 ++count_missing;
-                v = grib_missing;
+                v = NAN;
             }
             else
+            {
                 v = v * scale + offset;
+                lowest = std::min(lowest, v);
+            }
         }
+
+        // Missing values are recognised by comparison: what stands for them
+        // needs to be a number, and to differ from all the data
+        grib_missing = lowest - std::max(1.0, std::fabs(lowest));
+        for (auto& v: values)
+            if (std::isnan(v))
+                v = grib_missing;
         return true;
     }
 
-- 
2.43.0


From c269b9fa17b4ea5df663043e603e00875a5b862f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 051/166] fix: keep GRIB data apart from missing values when
 reading

---
 gdal/grib/grib.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index f404513..7eb6aae 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -28,6 +28,9 @@ using namespace std;
 namespace msat {
 namespace grib {
 
+// Value of the pixels with no data, as decoded by grib_api
+static const double DECODED_MISSING = -std::numeric_limits<double>::max();
+
 struct GRIBDataset;
 GDALDataset* GRIBOpen(GDALOpenInfo* info);
 GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
@@ -38,6 +41,7 @@ class GRIBRasterBand : public GDALRasterBand
 {
 	Grib& grib;
 	double missing;
+	bool has_bitmap;
 	string unit;
 
 public:
@@ -82,6 +86,16 @@ public:
 			CPLError(CE_Failure, CPLE_AppDefined, "Only %d values read instead of %d", (int)length, nRasterXSize * nRasterYSize);
 			return CE_Failure;
 		}
+
+		// Turn missing values into the nodata value, and keep data apart from
+		// it. Without a bitmap, nodata is the only way to tell missing values
+		const double nudged = nextafterf((float)missing, INFINITY);
+		double* values = (double*)buf;
+		for (size_t i = 0; i < length; ++i)
+			if (values[i] == DECODED_MISSING)
+				values[i] = missing;
+			else if (has_bitmap && values[i] == missing)
+				values[i] = nudged;
 		return CE_None;
 	}
 };
@@ -209,7 +223,10 @@ GRIBRasterBand::GRIBRasterBand(GRIBDataset* ds, int idx /*, GDALDataType dt */)
     // Invent a suitable missing value instead of 9999 or whatever grib_api
     // has as default
     missing = facts::defaultScaledMissing(channel_id);
-    grib.set_double("missingValue", missing);
+    long bitmap = 0;
+    has_bitmap = grib.get_long_ifexists("bitmapPresent", &bitmap) && bitmap;
+    // While decoding, use a value that data cannot have
+    grib.set_double("missingValue", DECODED_MISSING);
 }
 
 GDALDataset* GRIBOpen(GDALOpenInfo* info)
@@ -384,12 +401,25 @@ struct CreateGRIB
         return true;
     }
 
+    // Without a bitmap, data that is unpacked to the nodata value set when
+    // reading would turn into missing values
+    bool spans_nodata_of_reader() const
+    {
+        const char* sval = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
+        if (sval == NULL) return false;
+        double nodata = facts::defaultScaledMissing(strtoul(sval, NULL, 10));
+        auto range = std::minmax_element(values.begin(), values.end());
+        // Packing can make the lowest values a bit lower
+        double margin = std::max(std::fabs(*range.first) * 1e-6, (double)std::numeric_limits<float>::min());
+        return *range.first - margin <= nodata && nodata <= *range.second + margin;
+    }
+
     virtual bool bit_map_section()
     {
         // The purpose of the Bit-Map Section is to indicate the presence or
         // absence of data at each of the grid points, as applicable, in the
         // next occurrence of the Data Section.
-        if (count_missing)
+        if (count_missing || spans_nodata_of_reader())
         {
             grib.set_long("bitmapPresent", 1);
             // TODO: does it get computed automatically if we set missingValue,
-- 
2.43.0


From a132e9649fb2443cba84d539b7520a2e726d4869 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 052/166] fix: do not take zero for missing when writing images
 without a no-data value as GRIB

---
 gdal/grib/grib.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 7eb6aae..a776553 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -374,13 +374,14 @@ struct CreateGRIB
             return false;
 
         // Scale values and count missing values
-        double missing = rb->GetNoDataValue();
+        int has_missing = FALSE;
+        double missing = rb->GetNoDataValue(&has_missing);
         double offset = rb->GetOffset();
         double scale = rb->GetScale();
         double lowest = std::numeric_limits<double>::max();
         for (auto& v: values)
         {
-            if (v == missing || std::isnan(v))
+            if ((has_missing && v == missing) || std::isnan(v))
             {
                 ++count_missing;
                 v = NAN;
-- 
2.43.0


From cf0fef09d244a165e37bc29abec5ad38295b9ddc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 053/166] fix: refuse to encode as GRIB values that it cannot
 hold

---
 gdal/grib/grib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index a776553..6823416 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -389,6 +389,11 @@ struct CreateGRIB
             else
             {
                 v = v * scale + offset;
+                if (!(std::fabs(v) <= std::numeric_limits<float>::max()))
+                {
+                    CPLError(CE_Failure, CPLE_AppDefined, "Value %g is out of the range that GRIB can encode", v);
+                    return false;
+                }
                 lowest = std::min(lowest, v);
             }
         }
-- 
2.43.0


From 7c519734394fad9b4651fecd254f23fd684e64cf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 054/166] fix: refuse derived products of datasets without
 raster bands

---
 gdal/reflectance/base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdal/reflectance/base.cpp b/gdal/reflectance/base.cpp
index 45ea5be..4625022 100644
--- a/gdal/reflectance/base.cpp
+++ b/gdal/reflectance/base.cpp
@@ -68,6 +68,9 @@ CPLErr ProxyDataset::GetGeoTransform(double* tr)
 
 void ProxyRasterBand::add_info(GDALRasterBand* rb, const std::string& rbname)
 {
+    if (rb == nullptr)
+        throw std::runtime_error(rbname + ": trying to use a source dataset without raster bands");
+
     rb->GetBlockSize(&nBlockXSize, &nBlockYSize);
 
     // Initialize metadata from source raster band
-- 
2.43.0


From 129478b84640e47fc17e6e9f55ce0b23bb153573 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 055/166] fix: do not wrap around channel numbers of
 reflectance sources

---
 gdal/reflectance/reflectance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index 528abb9..11be598 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -37,8 +37,8 @@ void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
         const char* str_id = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
         if (str_id == nullptr) continue;
         // 1-based channel ID
-        int id = strtoul(str_id, nullptr, 10);
-        if (id < 1 || (unsigned)id > sources.size()) continue;
+        unsigned long id = strtoul(str_id, nullptr, 10);
+        if (id < 1 || id > sources.size()) continue;
 
         add_info(ds, "ReflectanceDataset");
 
-- 
2.43.0


From e9c1284c9e054f7d6f668e5783d533304561f40d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 056/166] fix: read the calibration constants of the IMPF
 configuration at their place

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
-- 
2.43.0


From eb626ba0fa2a3c0587a8fe80ba0f59c4aff32585 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 057/166] fix: let copies of native-format lines own their
 samples

---
 msat/msg-native/MSG_native_line.cpp | 27 +++++++++++++++++++++++++++
 msat/msg-native/MSG_native_line.h   |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..3a5d28a 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <cstring>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
 
@@ -31,6 +32,29 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata( const MSG_native_linedata &d )
+{
+  data_10bit = 0;
+  datasize = 0;
+  *this = d;
+}
+
+MSG_native_linedata &MSG_native_linedata::operator= (
+                                              const MSG_native_linedata &d )
+{
+  if (this == &d) return *this;
+  unsigned char *copy = 0;
+  if (d.data_10bit)
+  {
+    copy = new unsigned char[d.datasize];
+    memcpy(copy, d.data_10bit, d.datasize);
+  }
+  delete [ ] data_10bit;
+  data_10bit = copy;
+  datasize = d.datasize;
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -200,6 +224,8 @@ void MSG_native_line::read( std::ifstream &in )
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
     throw;
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = 0;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
@@ -228,5 +254,6 @@ std::ostream& operator<< ( std::ostream& os, MSG_native_line &l )
             << ", line count " << l.header.LineNumberInGrid << std::endl;
   for (int i = 0; i < ns; i ++)
     os << p[i] << std::endl;
+  delete [ ] p;
   return os;
 }
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..e08496f 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,6 +88,8 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata( const MSG_native_linedata &d );
+    MSG_native_linedata &operator= ( const MSG_native_linedata &d );
     ~MSG_native_linedata( );
 
     void to_sample(unsigned short **samples, long *nsample);
-- 
2.43.0


From 3c8b40444321d7282b108b461163cd47de80b81a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 058/166] fix: do not read texts of native-format headers past
 their field

---
 msat/msg-native/MSG_native_header.cpp | 113 ++++++++++++++------------
 1 file changed, 60 insertions(+), 53 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..bfef374 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,63 +21,70 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <cstring>
 #include <msat/msg-native/MSG_native_header.h>
 
+// Text of a fixed size field, which may end before with a NUL
+static std::string get_text(const unsigned char *buf, size_t size)
+{
+  return std::string((const char *) buf, strnlen((const char *) buf, size));
+}
+
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
-  mphinfo[0]   = (char *) buf;
-  mphinfo[1]   = (char *) buf+80;
-  mphinfo[2]   = (char *) buf+160;
-  mphinfo[3]   = (char *) buf+240;
-  mphinfo[4]   = (char *) buf+320;
-  mphinfo[5]   = (char *) buf+400;
-  mphinfo[6]   = (char *) buf+480;
-  mphinfo[6]  += (char *) buf+526;
-  mphinfo[7]   = (char *) buf+542;
-  mphinfo[7]  += (char *) buf+588;
-  mphinfo[8]   = (char *) buf+604;
-  mphinfo[8]  += (char *) buf+650;
-  mphinfo[9]   = (char *) buf+666;
-  mphinfo[9]  += (char *) buf+712;
-  mphinfo[10]  = (char *) buf+728;
-  mphinfo[10] += (char *) buf+774;
-  mphinfo[11]  = (char *) buf+2154;
-  mphinfo[12]  = (char *) buf+2234;
-  mphinfo[13]  = (char *) buf+2314;
-  mphinfo[14]  = (char *) buf+2394;
-  mphinfo[15]  = (char *) buf+2474;
-  mphinfo[16]  = (char *) buf+2554;
-  mphinfo[17]  = (char *) buf+2634;
-  mphinfo[18]  = (char *) buf+2714;
-  mphinfo[19]  = (char *) buf+2794;
-  mphinfo[20]  = (char *) buf+2874;
-  mphinfo[21]  = (char *) buf+2954;
-  mphinfo[22]  = (char *) buf+3034;
-  mphinfo[23]  = (char *) buf+3114;
-  mphinfo[24]  = (char *) buf+3194;
-  mphinfo[25]  = (char *) buf+3274;
-  mphinfo[26]  = (char *) buf+3354;
-  mphinfo[27]  = (char *) buf+3434;
-  mphinfo[28]  = (char *) buf+3514;
-  mphinfo[29]  = (char *) buf+3594;
-  mphinfo[30]  = (char *) buf+3674;
-  mphinfo[31]  = (char *) buf+3754;
-  mphinfo[32]  = (char *) buf+3834;
-  mphinfo[33]  = (char *) buf+3914;
-  mphinfo[34]  = (char *) buf+3994;
-  mphinfo[35]  = (char *) buf+4074;
-  mphinfo[36]  = (char *) buf+4154;
-  mphinfo[37]  = (char *) buf+4234;
-  mphinfo[38]  = (char *) buf+4314;
-  mphinfo[39]  = (char *) buf+4394;
-  mphinfo[40]  = (char *) buf+4474;
-  mphinfo[41]  = (char *) buf+4554;
-  mphinfo[42]  = (char *) buf+4634;
-  mphinfo[43]  = (char *) buf+4714;
-  mphinfo[44]  = (char *) buf+4794;
-  mphinfo[45]  = (char *) buf+4874;
-  mphinfo[46]  = (char *) buf+4954;
-  mphinfo[47]  = (char *) buf+5034;
+  mphinfo[0]   = get_text(buf+0, 80);
+  mphinfo[1]   = get_text(buf+80, 80);
+  mphinfo[2]   = get_text(buf+160, 80);
+  mphinfo[3]   = get_text(buf+240, 80);
+  mphinfo[4]   = get_text(buf+320, 80);
+  mphinfo[5]   = get_text(buf+400, 80);
+  mphinfo[6]   = get_text(buf+480, 46);
+  mphinfo[6]  += get_text(buf+526, 16);
+  mphinfo[7]   = get_text(buf+542, 46);
+  mphinfo[7]  += get_text(buf+588, 16);
+  mphinfo[8]   = get_text(buf+604, 46);
+  mphinfo[8]  += get_text(buf+650, 16);
+  mphinfo[9]   = get_text(buf+666, 46);
+  mphinfo[9]  += get_text(buf+712, 16);
+  mphinfo[10]  = get_text(buf+728, 46);
+  mphinfo[10] += get_text(buf+774, 16);
+  mphinfo[11]  = get_text(buf+2154, 80);
+  mphinfo[12]  = get_text(buf+2234, 80);
+  mphinfo[13]  = get_text(buf+2314, 80);
+  mphinfo[14]  = get_text(buf+2394, 80);
+  mphinfo[15]  = get_text(buf+2474, 80);
+  mphinfo[16]  = get_text(buf+2554, 80);
+  mphinfo[17]  = get_text(buf+2634, 80);
+  mphinfo[18]  = get_text(buf+2714, 80);
+  mphinfo[19]  = get_text(buf+2794, 80);
+  mphinfo[20]  = get_text(buf+2874, 80);
+  mphinfo[21]  = get_text(buf+2954, 80);
+  mphinfo[22]  = get_text(buf+3034, 80);
+  mphinfo[23]  = get_text(buf+3114, 80);
+  mphinfo[24]  = get_text(buf+3194, 80);
+  mphinfo[25]  = get_text(buf+3274, 80);
+  mphinfo[26]  = get_text(buf+3354, 80);
+  mphinfo[27]  = get_text(buf+3434, 80);
+  mphinfo[28]  = get_text(buf+3514, 80);
+  mphinfo[29]  = get_text(buf+3594, 80);
+  mphinfo[30]  = get_text(buf+3674, 80);
+  mphinfo[31]  = get_text(buf+3754, 80);
+  mphinfo[32]  = get_text(buf+3834, 80);
+  mphinfo[33]  = get_text(buf+3914, 80);
+  mphinfo[34]  = get_text(buf+3994, 80);
+  mphinfo[35]  = get_text(buf+4074, 80);
+  mphinfo[36]  = get_text(buf+4154, 80);
+  mphinfo[37]  = get_text(buf+4234, 80);
+  mphinfo[38]  = get_text(buf+4314, 80);
+  mphinfo[39]  = get_text(buf+4394, 80);
+  mphinfo[40]  = get_text(buf+4474, 80);
+  mphinfo[41]  = get_text(buf+4554, 80);
+  mphinfo[42]  = get_text(buf+4634, 80);
+  mphinfo[43]  = get_text(buf+4714, 80);
+  mphinfo[44]  = get_text(buf+4794, 80);
+  mphinfo[45]  = get_text(buf+4874, 80);
+  mphinfo[46]  = get_text(buf+4954, 80);
+  mphinfo[47]  = get_text(buf+5034, 80);
   return;
 }
 
-- 
2.43.0


From fa0fe464c3a433adc8037cf4e294ef9cfd10320d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 059/166] fix: report errors in native-format files with
 exceptions

---
 msat/msg-native/MSG_native.cpp         |  3 ++-
 msat/msg-native/MSG_native_header.cpp  | 16 ++++++----------
 msat/msg-native/MSG_native_line.cpp    | 24 +++++++++++++-----------
 msat/msg-native/MSG_native_trailer.cpp | 19 ++++++++-----------
 tools/msg-native/native2Image.cpp      |  7 ++++++-
 tools/msg-native/nativedump.cpp        |  7 ++++++-
 6 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..8d6d8cb 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -67,7 +67,8 @@ void MSG_native::close( )
     endcolumn[i] = 0;
   }
   nchannels = 0; 
-  if (in) in.close( );
+  in.close( );
+  in.clear( );
   headerpos = datapos = trailerpos = 0;
   return;
 }
diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index bfef374..1e43e26 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <cstring>
 #include <msat/msg-native/MSG_native_header.h>
 
@@ -96,30 +97,26 @@ void MSG_native_header::read( std::ifstream &in )
   in.read((char *) ubuf, mph_sph_header.mph_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header.");
   }
   mph_sph_header.read_from(ubuf);
 
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -139,8 +136,7 @@ void MSG_native_header::read( std::ifstream &in )
   p += MSG_IMPF_CONFIGURATION_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 3a5d28a..08a1b48 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
@@ -214,31 +215,32 @@ void MSG_native_line::read( std::ifstream &in )
   in.read((char *) lbuf, pkh.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  std::streampos here = in.tellg( );
+  in.seekg(0, std::ios::end);
+  std::streamoff left = in.tellg( ) - here;
+  in.seekg(here);
+  long size = (long) pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
+  if (in.fail( ) || size < 0 || size > left)
   {
-    std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size.");
   }
   delete [ ] data.data_10bit;
   data.data_10bit = 0;
-  data.data_10bit = new unsigned char[data.datasize];
+  data.data_10bit = new unsigned char[size];
+  data.datasize = size;
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header.");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data.");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..2de1f77 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_trailer.h>
 
 void MSG_native_trailer::read( std::ifstream &in )
@@ -32,24 +33,21 @@ void MSG_native_trailer::read( std::ifstream &in )
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Trailer Size: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer Size: "
+                             "Read error from Native file: Level 1.5 Trailer.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Trailer: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer: "
+                             "Read error from Native file: Level 1.5 Trailer.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -65,9 +63,8 @@ void MSG_native_trailer::read( std::ifstream &in )
   p += MSG_TIMELINESS_COMPLETENESS_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Trailer checksum: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer checksum: "
+                             "Read error from Native file: Level 1.5 Trailer.");
   }
 
   return;
diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 0c0b799..ff6481d 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -73,7 +73,12 @@ int main(int argc, char **argv)
     return -1;
   }
 
-  native.read( );
+  try {
+    native.read( );
+  } catch (std::exception &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+    return -1;
+  }
 
   Magick::Image *image = new Magick::Image(native.pixels(ichn),
                          native.lines(ichn), "I", Magick::ShortPixel,
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 6f5f621..9977b21 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -31,7 +31,12 @@ int main(int argc, char **argv)
   if (argc < 2) return 1;
   if (! native.open(argv[1])) return 1;
 
-  native.read( );
+  try {
+    native.read( );
+  } catch (std::exception &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
 
   std::cout << native;
 
-- 
2.43.0


From 708c00efd8187097fd2252ec8e7db76eff7516f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 060/166] fix: check the sizes and addresses in native-format
 headers

---
 msat/msg-native/MSG_native.cpp | 66 +++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 8d6d8cb..165d255 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -24,8 +24,33 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <msat/msg-native/MSG_native.h>
 
+// Largest size of an image, in lines or columns: the HRV full disk
+static const long MAX_SIZE = 11136;
+
+// Get the address of a section of the file from its U-MARF record
+static long get_address(const std::string &rec)
+{
+  long val;
+  if (sscanf(rec.c_str( ), "%*s : %*d %ld", &val) != 1 || val < 0)
+    throw std::runtime_error(
+        "Read error from Native file: U-MARF Header addresses.");
+  return val;
+}
+
+// Get a position or size in the image from its U-MARF record
+static long get_size(const std::string &rec)
+{
+  long val;
+  if (sscanf(rec.c_str( ), "%*s : %ld", &val) != 1 ||
+      val < 0 || val > MAX_SIZE)
+    throw std::runtime_error(
+        "Read error from Native file: U-MARF Header image size.");
+  return val;
+}
+
 MSG_native::MSG_native( )
 {
   headerpos = datapos = trailerpos = 0;
@@ -81,19 +106,19 @@ MSG_native::~MSG_native( )
 void MSG_native::read( )
 {
   header.read(in);
-  sscanf(header.mph_sph_header.mphinfo[8].c_str( ),
-          "%*s : %*d %ld\n", &headerpos);
-  sscanf(header.mph_sph_header.mphinfo[9].c_str( ),
-          "%*s : %*d %ld\n", &datapos);
-  sscanf(header.mph_sph_header.mphinfo[10].c_str( ),
-          "%*s : %*d %ld\n", &trailerpos);
+  headerpos = get_address(header.mph_sph_header.mphinfo[8]);
+  datapos = get_address(header.mph_sph_header.mphinfo[9]);
+  trailerpos = get_address(header.mph_sph_header.mphinfo[10]);
   in.seekg(trailerpos, std::ios::beg);
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
   char bandsel[16];
-  sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
+  memset(bandsel, 0, sizeof(bandsel));
+  if (sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
+             "%*s : %15s", bandsel) != 1)
+    throw std::runtime_error(
+        "Read error from Native file: U-MARF Header selected bands.");
   for (int i = 0; i < SEVIRI_CHANNELS; i ++)
   {
     if (bandsel[i] == 'X')
@@ -102,19 +127,12 @@ void MSG_native::read( )
       nchannels ++;
     }
   }
-  long nlines, ncols, startl, stopl, startc, stopc = 0;
-  sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
-         "%*s : %ld", &startl);
-  sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
-         "%*s : %ld", &stopl);
-  sscanf(header.mph_sph_header.mphinfo[44].c_str( ),
-         "%*s : %ld", &nlines);
-  sscanf(header.mph_sph_header.mphinfo[42].c_str( ),
-         "%*s : %ld", &startc);
-  sscanf(header.mph_sph_header.mphinfo[43].c_str( ),
-         "%*s : %ld", &stopc);
-  sscanf(header.mph_sph_header.mphinfo[45].c_str( ),
-         "%*s : %ld", &ncols);
+  long startl = get_size(header.mph_sph_header.mphinfo[40]);
+  long stopl  = get_size(header.mph_sph_header.mphinfo[41]);
+  long startc = get_size(header.mph_sph_header.mphinfo[42]);
+  long stopc  = get_size(header.mph_sph_header.mphinfo[43]);
+  long nlines = get_size(header.mph_sph_header.mphinfo[44]);
+  long ncols  = get_size(header.mph_sph_header.mphinfo[45]);
 
   MSG_native_line aline;
   for (int il = 0; il < nlines; il ++)
@@ -145,10 +163,8 @@ void MSG_native::read( )
   }
   if (selected_channel[HRV_CHANNEL])
   {
-    sscanf(header.mph_sph_header.mphinfo[46].c_str( ),
-           "%*s : %ld", &nlines);
-    sscanf(header.mph_sph_header.mphinfo[47].c_str( ),
-           "%*s : %ld", &ncols);
+    nlines = get_size(header.mph_sph_header.mphinfo[46]);
+    ncols = get_size(header.mph_sph_header.mphinfo[47]);
     numberlines[HRV_CHANNEL] = nlines;
     startline[HRV_CHANNEL] = startl;
     endline[HRV_CHANNEL] = stopl;
-- 
2.43.0


From ff8f755bd8fe97b85a726abcf83fd47570da868b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 061/166] fix: keep native-format samples within the lines and
 the image

---
 msat/msg-native/MSG_native.cpp      | 15 ++++++++-------
 msat/msg-native/MSG_native_line.cpp | 22 +++++++++++++++++++---
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 165d255..214441c 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -240,21 +240,22 @@ unsigned short *MSG_native::data(int channel)
   if (channel < 0 || channel >= SEVIRI_CHANNELS) return 0;
   if (!selected_channel[channel]) return 0;
 
-  long size = numberlines[channel]*numbercolumns[channel];
+  long size = (long) numberlines[channel]*numbercolumns[channel];
   long px = numbercolumns[channel];
 
   unsigned short *s = new unsigned short[size];
-  unsigned short *sp;
-  long ns;
+  memset(s, 0, size*sizeof(unsigned short));
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
-  int count = 0;
-  while (p != line[channel].end( ))
+  for (long count = 0; count < numberlines[channel]; count ++)
   {
-    sp = s+count*px;
+    if (p == line[channel].end( )) break;
+    unsigned short *sp = 0;
+    long ns;
     p->data.to_sample(&sp, &ns);
+    memcpy(s+count*px, sp, (ns < px ? ns : px)*sizeof(unsigned short));
+    delete [ ] sp;
     p ++;
-    count ++;
   }
   return s;
 }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 08a1b48..ff0d94d 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -190,8 +190,8 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
 
   unsigned short *ps = *samples;
   unsigned char  *pc = data_10bit;
-  unsigned int ipos = 0;
-  while (ipos < datasize)
+  long ns = 0;
+  while (ns+4 <= *nsample)
   {
     ps[0] = (((unsigned short) pc[0]      ) << 2) |
             (((unsigned short) pc[1]      ) >> 6);
@@ -202,9 +202,25 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
     ps[3] = (((unsigned short) pc[3] &   3) << 8) |
             (((unsigned short) pc[4]      )     );
     pc   += 5;
-    ipos += 5;
     ps   += 4;
+    ns   += 4;
   }
+  // Samples of an incomplete last group
+  if (ns < *nsample)
+  {
+    ps[0] = (((unsigned short) pc[0]      ) << 2) |
+            (((unsigned short) pc[1]      ) >> 6);
+    ns ++;
+  }
+  if (ns < *nsample)
+  {
+    ps[1] = (((unsigned short) pc[1] &  63) << 4) |
+            (((unsigned short) pc[2]      ) >> 4);
+    ns ++;
+  }
+  if (ns < *nsample)
+    ps[2] = (((unsigned short) pc[2] &  15) << 6) |
+            (((unsigned short) pc[3]      ) >> 2);
   return;
 }
 
-- 
2.43.0


From 3cd7aab22d1ee6b468d56fe23d982ea4134f6454 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 062/166] fix: write native-format images as valid PGM

---
 msat/msg-native/MSG_native.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 214441c..9734826 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -202,25 +202,27 @@ bool MSG_native::pgmdump(int ic, char *filename)
 
   os << "P5" << std::endl;
   for (int i = 0; i < (int) header.mph_sph_header.mph_lines; i ++)
-    os << "# " << header.mph_sph_header.mphinfo[i];
+  {
+    const std::string &info = header.mph_sph_header.mphinfo[i];
+    os << "# " << info;
+    if (info.empty( ) || info[info.size( ) - 1] != '\n') os << std::endl;
+  }
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
   os << "1024" << std::endl;
 
-  unsigned short *s = 0;
-  long ns;
-
-  std::list <MSG_native_line>::iterator p = line[ic].begin( );
-  while (p != line[ic].end( ))
+  unsigned short *s = data(ic);
+  long size = (long) numberlines[ic]*numbercolumns[ic];
+  // PGM samples have the most significant byte first
+  for (long i = 0; i < size; i ++)
   {
-    p->data.to_sample(&s, &ns);
-    os.write((char *) s, ns*sizeof(short));
-    p ++;
+    os.put((char) (s[i] >> 8));
+    os.put((char) (s[i] & 0xff));
   }
   os.close( );
 
   delete [ ] s;
 
-  return true;
+  return os.good( );
 }
 
 int MSG_native::lines(int channel)
-- 
2.43.0


From 8c4c73c08c2882302ce85418ac701c51ea97c236 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 063/166] fix: print native-format lines to the given stream

---
 msat/msg-native/MSG_native.cpp      | 2 +-
 msat/msg-native/MSG_native_line.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 9734826..d719cf6 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -185,7 +185,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_native &m )
     std::list <MSG_native_line>::iterator p = m.line[ic].begin( );
     while (p != m.line[ic].end( ))
     {
-      std::cout << *p;
+      os << *p;
       p ++;
     }
   }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index ff0d94d..0ff7dc5 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -267,7 +267,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_native_line &l )
   long ns;
   unsigned short *p = 0;
   l.data.to_sample(&p, &ns);
-  std::cout << "Got " << ns << " samples from channel "
+  os << "Got " << ns << " samples from channel "
             << (short) l.header.ChannelId
             << ", line count " << l.header.LineNumberInGrid << std::endl;
   for (int i = 0; i < ns; i ++)
-- 
2.43.0


From f2d36c3c7c04eaf7da9bea30824199b8abe16dde Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 064/166] fix: report missing channels in native2Image, and
 scale its images

---
 tools/msg-native/native2Image.cpp | 41 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index ff6481d..a582083 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -24,7 +24,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
-#include <limits.h>
+#include <string>
 #include <msat/msg-native/MSG_native.h>
 
 #include <Magick++.h>
@@ -64,7 +64,7 @@ int main(int argc, char **argv)
   }
 
   int ichn = atoi(argv[2]);
-  format = strdup(argv[3]);
+  format = argv[3];
   gfactor = atof(argv[4]);
 
   if (! native.open(argv[1]))
@@ -80,19 +80,34 @@ int main(int argc, char **argv)
     return -1;
   }
 
-  Magick::Image *image = new Magick::Image(native.pixels(ichn),
-                         native.lines(ichn), "I", Magick::ShortPixel,
-                         native.data(ichn)); 
-  char outname[PATH_MAX];
-  snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
+  unsigned short *pixels = native.data(ichn);
+  if (! pixels || native.pixels(ichn) == 0 || native.lines(ichn) == 0)
+  {
+    std::cerr << argv[1] << ": no data for channel " << argv[2] << std::endl;
+    delete [ ] pixels;
+    return -1;
+  }
+
+  try {
+    Magick::Image image(native.pixels(ichn), native.lines(ichn), "I",
+                        Magick::ShortPixel, pixels);
+    std::string outname = std::string("MSG1.") + format;
 
-  image->normalize( );
-  image->rotate(180.0);
-  image->write(outname);
+    image.normalize( );
+    image.rotate(180.0);
 
-  Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
-                        (int) ((float) native.lines(ichn) *gfactor));
-  image->scale(geom);
+    Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
+                          (int) ((float) native.lines(ichn) *gfactor));
+    image.scale(geom);
+    image.write(outname);
+  } catch (Magick::Warning &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+  } catch (std::exception &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+    delete [ ] pixels;
+    return -1;
+  }
+  delete [ ] pixels;
 
   native.close( );
   return 0;
-- 
2.43.0


From 4fee50ab5e9c78929051fc4742484d4740b2c0a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 065/166] fix: keep native-format header texts within the
 comments of PGM images

---
 msat/msg-native/MSG_native.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index d719cf6..763bbae 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -203,9 +203,11 @@ bool MSG_native::pgmdump(int ic, char *filename)
   os << "P5" << std::endl;
   for (int i = 0; i < (int) header.mph_sph_header.mph_lines; i ++)
   {
-    const std::string &info = header.mph_sph_header.mphinfo[i];
-    os << "# " << info;
-    if (info.empty( ) || info[info.size( ) - 1] != '\n') os << std::endl;
+    // Texts may have newlines also inside
+    std::string info = header.mph_sph_header.mphinfo[i];
+    for (size_t c = 0; c < info.size( ); c ++)
+      if (info[c] == '\n' || info[c] == '\r') info[c] = ' ';
+    os << "# " << info << std::endl;
   }
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
   os << "1024" << std::endl;
-- 
2.43.0


From 5f9a2c8cd91fb70a51b0c0f944c6b4782fc063bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 066/166] fix: return also the last of all scan lines of
 OpenMTP-IDS images

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..ea5207d 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -175,7 +175,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From d0a3d3c6b914b8c51a0cc27ee2622e383d7f3ed5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 067/166] fix: report errors of OpenMTP-IDS files with valid
 exceptions

---
 msat/omtp-ids/OpenMTP-IDS.cc         | 11 ++++++-----
 tools/omtp-ids/OpenMTP-IDS_debug.cc  |  4 ++++
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 16 ++++++++++------
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc |  4 ++++
 tools/omtp-ids/OpenMTP-IDS_write.cc  |  4 ++++
 5 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ea5207d..d749a67 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -22,6 +22,7 @@
 //
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <algorithm>
 
@@ -103,7 +104,7 @@ OpenMTP_IDS::read(const char* filename)
 		err += "could not open ";
 		err += filename;
 		err += " for reading";
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	is >> *this;
@@ -112,7 +113,7 @@ OpenMTP_IDS::read(const char* filename)
 		std::string err;
 		err += "error while reading ";
 		err += filename;
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	is.close();
@@ -129,19 +130,19 @@ OpenMTP_IDS::write(const char* filename)
 		err += "could not open ";
 		err += filename;
 		err += " for writing";
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	os << *this;
+	os.close();
 
 	if (!os.good()) {
 		std::string err;
 		err += "error while writing ";
 		err += filename;
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
-	os.close();
 	return true;
 }
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_debug.cc b/tools/omtp-ids/OpenMTP-IDS_debug.cc
index 5fe7a67..3c3b297 100644
--- a/tools/omtp-ids/OpenMTP-IDS_debug.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_debug.cc
@@ -24,6 +24,7 @@
 //
 #include <iostream>
 #include <cstdlib>
+#include <exception>
 
 // PROJECT INCLUDES
 //
@@ -62,6 +63,9 @@ main(int argc, char* argv[])
 	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
+		return EXIT_FAILURE;
 	}
 
 	return EXIT_SUCCESS;
diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 8bfc48b..c23be9a 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -23,6 +23,8 @@
 // SYSTEM INCLUDES
 //
 #include <algorithm>
+#include <cstdlib>
+#include <exception>
 #include <fstream>
 #include <iostream>
 #include <iterator>
@@ -168,15 +170,17 @@ main(int argc, char* argv[])
 	}
 
 	std::cout << "read..." << std::endl;
-	OpenMTP_IDS omtp_ids;
 	try {
-		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (char* err) {
+		OpenMTP_IDS omtp_ids(argv[1]);
+
+		if (!openmtp_ids_sector(omtp_ids)) {
+			return EXIT_FAILURE;
+		}
+	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
-	}
-
-	if (!openmtp_ids_sector(omtp_ids)) {
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 65be161..8d469d6 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstdlib>
+#include <exception>
 
 // PROJECT INCLUDES
 //
@@ -191,6 +192,9 @@ main(int argc, char* argv[])
 	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
+		return EXIT_FAILURE;
 	}
 
 	if (!openmtp_ids_to_pgm(omtp_ids)) {
diff --git a/tools/omtp-ids/OpenMTP-IDS_write.cc b/tools/omtp-ids/OpenMTP-IDS_write.cc
index 9f79cef..e54797c 100644
--- a/tools/omtp-ids/OpenMTP-IDS_write.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_write.cc
@@ -25,6 +25,7 @@
 //
 #include <iostream>
 #include <cstdlib>
+#include <exception>
 
 // PROJECT INCLUDES
 //
@@ -64,6 +65,9 @@ main(int argc, char* argv[])
 	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
+		return EXIT_FAILURE;
 	}
 
 	return EXIT_SUCCESS;
-- 
2.43.0


From 9da3d6c4b68fe030da83f60993982879d4115d6c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 068/166] fix: check the counts in OpenMTP-IDS headers

---
 msat/omtp-ids/FileHeader.cc  |  3 +++
 msat/omtp-ids/OpenMTP-IDS.cc | 11 +++++++++--
 msat/omtp-ids/Record.cc      |  3 +++
 msat/omtp-ids/ScanLine.cc    |  5 ++++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/msat/omtp-ids/FileHeader.cc b/msat/omtp-ids/FileHeader.cc
index 85966d4..610ca7e 100644
--- a/msat/omtp-ids/FileHeader.cc
+++ b/msat/omtp-ids/FileHeader.cc
@@ -123,6 +123,9 @@ operator<<(std::ostream& os,
 
 	const int offset = fileheader.record_length()
 		+ FORTRAN_LEN - FILEHEADER_LEN;
+	if (offset < 0) {
+		os.setstate(std::ios::failbit);
+	}
 	for (int i = 0; i < offset; i++) {
 		os.put('\0');
 	}
diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index d749a67..514265b 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -57,8 +57,11 @@ operator<<(std::ostream& os,
 	os << openmtp_ids.m_fileheader;
 
 	// the first record was just written..
-	const unsigned no_records =
-		openmtp_ids.m_fileheader.no_records() - 1;
+	const unsigned no_records = openmtp_ids.m_record.size();
+	if (openmtp_ids.m_fileheader.no_records() != (int) no_records + 1) {
+		os.setstate(std::ios::failbit);
+		return os;
+	}
 
 	for (unsigned i = 0; i < no_records; i++) {
 		os << openmtp_ids.m_record[i];
@@ -78,6 +81,10 @@ operator>>(std::istream& is,
 		throw "failure while reading file header\n";
 	}
 
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw "no records in file header\n";
+	}
+
 	// the first record was just read..
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
diff --git a/msat/omtp-ids/Record.cc b/msat/omtp-ids/Record.cc
index 3e1caf1..bf9e930 100644
--- a/msat/omtp-ids/Record.cc
+++ b/msat/omtp-ids/Record.cc
@@ -50,6 +50,9 @@ operator<<(std::ostream& os,
 	os << record.m_recordheader;
 
 	const int no_scanlines = record.m_scanline.size();
+	if (record.m_recordheader.no_scanlines() != no_scanlines) {
+		os.setstate(std::ios::failbit);
+	}
 	for (int i = 0; i < no_scanlines; i++) {
 		os << record.m_scanline[i];
 	}
diff --git a/msat/omtp-ids/ScanLine.cc b/msat/omtp-ids/ScanLine.cc
index 3c85f2f..0bd1e50 100644
--- a/msat/omtp-ids/ScanLine.cc
+++ b/msat/omtp-ids/ScanLine.cc
@@ -56,7 +56,10 @@ operator<<(std::ostream& os,
 	}
 
 	const int offset = scanline.m_lineheader.length()
-		- no_pixels - LINEHEADER_LEN;
+		- (int) no_pixels - LINEHEADER_LEN;
+	if (offset < 0 || scanline.m_lineheader.no_pixels() != (int) no_pixels) {
+		os.setstate(std::ios::failbit);
+	}
 	for (int i = 0; i < offset; i++) {
 		os.put('\0');
 	}
-- 
2.43.0


From 0853827f9103a70b71d919ea39346099de34dcc4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 069/166] fix: report what OpenMTP-IDS_to_pgm has done in its
 exit status

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 8d469d6..dcdeb90 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -81,6 +81,12 @@ write_pgm(const char* filename,
 		return false;
 	}
 
+	for (unsigned x = 0; x < size_x; ++x) {
+		if (image[x].size() != size_y_0) {
+			return false;
+		}
+	}
+
 	std::ofstream os(filename);
 	if (!os.good()) {
 		return false;
@@ -94,16 +100,14 @@ write_pgm(const char* filename,
 		<< "255" << std::endl;
 
 	for (int x = 0; x < (int) size_x; ++x) {
-		const unsigned size_y = image[x].size();
-		if (size_y != size_y_0) {
-			os.close();
-			return false;
-		}
-		for (int y = 0; y < (int) size_y; ++y) {
+		for (int y = 0; y < (int) size_y_0; ++y) {
 			os.put(image[x][y]);
 		}
 	}
 	os.close();
+	if (!os.good()) {
+		return false;
+	}
 	std::cout << "wrote " << filename << std::endl;
 	return true;
 }
@@ -151,11 +155,11 @@ openmtp_ids_to_pgm(const OpenMTP_IDS& omtp_ids)
 
 	bool ret = false;
 
-	ret = write_channel_pgm(fh.vis_id(), omtp_ids);
-	ret = write_channel_pgm(fh.ir_id(),  omtp_ids);
-	ret = write_channel_pgm(fh.wv_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.vis_id(), omtp_ids);
+	ret |= write_channel_pgm(fh.ir_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.wv_id(),  omtp_ids);
 
-	return (! ret);
+	return ret;
 }
 
 // EXTERNAL REFERENCES
-- 
2.43.0


From 3106f0fe6a79b66914f39e57607e3089476ebbad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 070/166] fix: refuse OpenMTP-IDS images that do not cover the
 sector

---
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index c23be9a..f513966 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -128,6 +128,15 @@ sector(const OpenMTP_IDS& omtp_ids)
 {
 	std::vector<ScanLine> lines = omtp_ids.scanline(LINE_0, LINE_1);
 
+	if (lines.size() != LINE_1 - LINE_0) {
+		throw "the image does not have all the lines of the sector";
+	}
+	for (unsigned i = 0; i < lines.size(); ++i) {
+		if (lines[i].linepixel().size() < PIXEL_1) {
+			throw "the image does not have all the pixels of the sector";
+		}
+	}
+
 	for_each(lines.begin(), lines.end(), sector_line);
 	return repack(lines);
 }
-- 
2.43.0


From 80d124c62573a9e7a52398793abb679ae53b6558 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 071/166] fix: report HRI files that cannot be decoded with
 exceptions

A bare throw without a current exception terminates the process; short reads
were taken for image lines.
---
 msat/hri/HRI.cpp                         | 23 ++++++++++++-----------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..c1f7716 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <ctime>
 #include <msat/hri/HRI.h>
+#include <stdexcept>
 
 Hri::Hri( char *hri_filename, bool IS_TECNAVIA )
 {
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("cannot open HRI file");
   }
 
   if (IS_TECNAVIA)
@@ -92,7 +93,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       if (hri.fail())
       {
         std::cerr << "Read failed." << std::endl;
-        return;
+        throw std::runtime_error("read of HRI file failed");
       }
       memcpy(keybuff, mod_framebuff, 1440-92);
     }
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI format or image not disseminated");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI frame format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("read of HRI file failed");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("read of HRI file failed");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI frame format");
   }
   return linebuff;
 }
@@ -518,7 +519,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("read of HRI file failed");
   }
 
   memcpy(chk_sync, mod_framebuff+offset, 4);
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("sync error in HRI file");
   }
   return;
 }
@@ -543,7 +544,7 @@ void Hri::getbuff( ifstream &hri )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("read of HRI file failed");
   }
   memcpy(chk_sync, framebuff, 4);
   if (chk_sync[0] != 0x0C05 && (chk_sync[1] & 255) != 0xDF)
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("sync error in HRI file");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..1e7476e 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <string>
 #include <iostream>
+#include <stdexcept>
 
 typedef struct {
   long CFAC;
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("unknown or unsupported HRI format");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..0411bea 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <cstring>
 #include <cmath>
+#include <stdexcept>
 
 HRI_image::HRI_image( )
 {
@@ -124,7 +125,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined band for HRI image");
 	  break;
       }
       break;
@@ -173,7 +174,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined band for HRI image");
 	  break;
       }
       break;
@@ -222,13 +223,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined band for HRI image");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("undefined format of HRI image");
   }
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
@@ -244,14 +245,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("invalid line size for HRI image");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("line number out of range for HRI image");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -266,14 +267,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("invalid half line size for HRI image");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("line number out of range for HRI image");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -290,7 +291,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("line number out of range for HRI image");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -314,14 +315,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("line number out of range for HRI image");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::runtime_error("pixel number out of range for HRI image");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..ffcff8b 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <ctime>
 #include <cstdio>
+#include <stdexcept>
 
 HRI_subframe_identification::HRI_subframe_identification( char *hsi )
 {
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("unknown satellite in HRI file");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("unknown satellite in HRI file");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..9744727 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_subframe_label.h>
 #include <string>
+#include <stdexcept>
 
 HRI_subframe_label::HRI_subframe_label( char hsl[24] )
 {
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("unknown format code in HRI file");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From e4896705bb3f659d7ecc34a60987f973d7f9ec2c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 072/166] fix: decode the floating point numbers of HRI files
 where long has 64 bits

The words were read through pointers to unsigned long, beyond the buffers.
---
 msat/hri/HRI_machine.cpp | 169 +++------------------------------------
 1 file changed, 12 insertions(+), 157 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..4e6d954 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -27,6 +27,8 @@
 //
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_machine.h>
+#include <cfloat>
+#include <cmath>
 #include <cstdint>
 
 HRI_machine::HRI_machine()
@@ -141,171 +143,24 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
-{
-   register unsigned long hiw, low;
-
-   hiw = pnt[0];
-   low = pnt[1];
-
-   while (n-- > 0)
-   {
-      hiw = (hiw << 1) | ((low >> 31) & 0x00000001);
-      low <<= 1;
-   }
-
-   pnt[0] = hiw;
-   pnt[1] = low;
-   return;
-}
-
-static inline void rightshift(unsigned long *pnt, int n)
-{
-   register unsigned long hiw, low;
-
-   hiw = pnt[0];
-   low = pnt[1];
-
-   while (n-- > 0)
-   {
-      low = (hiw << 31) | ((low >> 1) & 0x7FFFFFFF);
-      hiw >>= 1;
-   }
-
-   pnt[0] = hiw;
-   pnt[1] = low;
-   return;
-}
-
+// IBM floating point: sign, excess-64 exponent of 16, fraction
 float HRI_machine::r4_from_buff( const unsigned char *buff )
 {
-    union {
-        uint32_t i;
-        float f;
-    } uval;
-    unsigned long *pnt, sign, fraction;
-    long exponent;
-    unsigned char swp[4];
-
-   if (isbig)
-     pnt = (unsigned long *) buff;
-   else
-   {
-     swp[3] = buff[0];
-     swp[2] = buff[1];
-     swp[1] = buff[2];
-     swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
-   }
+  uint32_t fraction = (uint32_t) buff[1] << 16 | buff[2] << 8 | buff[3];
+  double val = ldexp((double) fraction, 4 * ((buff[0] & 0x7F) - 64) - 24);
 
-   if ((pnt[0] & 0x7FFFFFFF) == 0)
-      return *((float *) pnt);
-
-   sign     =   pnt[0] & 0x80000000;
-   exponent = ((pnt[0] & 0x7F000000) >> 24) - 64;
-   fraction =   pnt[0] & 0x00FFFFFF;
-
-   if (exponent >= 0)
-      exponent <<= 2;
-   else
-      exponent = -((-exponent) << 2);
-
-   exponent = exponent - 1;
-   if (fraction)
-   {
-      while ((fraction & 0x00800000) == 0)
-      {
-         fraction <<= 1;
-         exponent = exponent - 1;
-      }
-   }
-
-   fraction &= 0x007FFFFF;
-   if ((exponent += 127) >= 255)
-      uval.i = sign | 0x7F7FFFFF;
-   else if (exponent <= 0)
-      uval.i = sign;
-   else
-      uval.i = sign | (exponent << 23) | fraction;
-
-   return uval.f;
+  if (val > FLT_MAX) val = FLT_MAX;
+  return buff[0] & 0x80 ? -val : val;
 }
 
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
-    int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
-    union {
-        uint32_t i[2];
-        double d;
-    } uval;
-    long exponent;
-    unsigned char swp[8];
-
-   if (isbig)
-     pnt = (unsigned long *) buff;
-   else
-   {
-     swp[3] = buff[0];
-     swp[2] = buff[1];
-     swp[1] = buff[2];
-     swp[0] = buff[3];
-     swp[7] = buff[4];
-     swp[6] = buff[5];
-     swp[5] = buff[6];
-     swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
-   }
-
-   if (isbig) { idxl = 0; idxh = 1; }
-   else       { idxl = 1; idxh = 0; }
-
-   tmp = pnt[0];
-   if ((tmp & 0x7FFFFFFF) == 0)
-   {
-     uval.i[idxl] = pnt[0];
-     uval.i[idxh] = pnt[1];
-     return uval.d;
-   }
-
-   sign        = pnt[0] & 0x80000000;
-   exponent    = ((pnt[0] & 0x7F000000) >> 24) - 64;
-   fraction[0] = pnt[0] & 0x00FFFFFF;
-   fraction[1] = pnt[1];
-
-   if (exponent >= 0)
-      exponent <<= 2;
-   else
-      exponent = -((-exponent) << 2);
-
-   if (fraction[0])
-   {
-      while ((fraction[0] & 0x01000000) == 0)
-      {
-         leftshift(fraction, 1);
-         exponent -= 1;
-      }
-   }
-
-   rightshift(fraction, 4);
+  uint64_t fraction = 0;
+  for (int i = 1; i < 8; i ++)
+    fraction = fraction << 8 | buff[i];
+  double val = ldexp((double) fraction, 4 * ((buff[0] & 0x7F) - 64) - 56);
 
-   fraction[0] &= 0x000FFFFF;
-   if ((exponent += 1023) >= 2047)
-   {
-      uval.i[idxl] = sign | 0X7FEFFFFF;
-      uval.i[idxh] = 0xFFFFFFFF;
-   }
-   else if (exponent <= 0)
-   {
-      uval.i[idxl] = sign;
-      uval.i[idxh] = 0;
-   }
-   else
-   {
-      uval.i[idxl] = sign | (exponent << 20) | fraction[0];
-      uval.i[idxh] = fraction[1];
-   }
-   return uval.d;
+  return buff[0] & 0x80 ? -val : val;
 }
 
 short int HRI_machine::i2_from_buff( const unsigned char *buff )
-- 
2.43.0


From 0fb9a6aadef7090590fa2ac0060b9f0f7efc3f08 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 073/166] fix: keep all pixels of both half lines of HRI images

The second half overwrote the last two pixels of the first, and the last two
pixels of every line were left uninitialised.
---
 msat/hri/HRI_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index 0411bea..8594fad 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -279,7 +279,7 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
   else
-    memcpy(data+linenum*npixels+halflin-2, dataline, linesize);
+    memcpy(data+linenum*npixels+halflin, dataline, linesize);
   return;
 }
 
-- 
2.43.0


From 5024c4526b9693517735a754bd759f024e5e918b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 074/166] fix: read the keys of HRI files in Tecnavia
 encapsulation

---
 msat/hri/HRI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c1f7716..185121a 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -95,7 +95,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
         std::cerr << "Read failed." << std::endl;
         throw std::runtime_error("read of HRI file failed");
       }
-      memcpy(keybuff, mod_framebuff, 1440-92);
+      memcpy(keybuff+92, mod_framebuff, 1440-92);
     }
     else
     {
@@ -107,8 +107,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       memcpy(keybuff+720, framebuff + 4, 360);
       getbuff(hri);
       memcpy(keybuff+1080, framebuff + 4, 360);
-      keys.readfrom(keybuff);
     }
+    keys.readfrom(keybuff);
   }
 
   if (false)
-- 
2.43.0


From 63289d9205c0e723ccf1f463ae62528869a7c76e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 075/166] fix: release the memory of HRI images set up again

---
 msat/hri/HRI_image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index 8594fad..db932e4 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -50,6 +50,9 @@ HRI_image::HRI_image( HRI_image_satellite s,
                       HRI_image_format f,
 		      HRI_image_band b )
 {
+  data = 0;
+  aline = 0;
+  calibrated = false;
   set_format_band(s, f, b);
 }
 
@@ -231,6 +234,9 @@ void HRI_image::set_format_band( HRI_image_satellite s,
       std::cerr << "Undefined format in HRI_image" << std::endl;
       throw std::runtime_error("undefined format of HRI image");
   }
+  delete [ ] data;
+  delete [ ] aline;
+  data = aline = 0;
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
   assert(data);
-- 
2.43.0


From 5cbfd7a2ea170e244f0a2bed355a2ded875c1c7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 076/166] fix: calibrate the water vapour images of HRI X
 format files

---
 msat/hri/HRI.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 185121a..c31b485 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -347,6 +347,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       for (int i = 0; i < image[0].nlines; i ++)
         image[0].put_line(get_dataline(hri, id), image[0].npixels, i); 
     }
+    coeff.mpef_absolute = interp.cal.calwv;
+    coeff.space_count   = interp.cal.wvspc;
     image[0].set_calibration(&coeff);
   }
   else if (format == "XVH")
-- 
2.43.0


From 6e77782ceae34fb725313e761ae864a9dc8ee27e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 077/166] fix: decode and print the HRI interpretation fields
 at their place

The western IR space count was read from that of VIS 1, two fields were
printed for others, and the message was printed beyond its 800 bytes.
---
 msat/hri/HRI_subframe_interpretation.cpp |  2 +-
 msat/hri/HRI_subframe_interpretation.h   | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
diff --git a/msat/hri/HRI_subframe_interpretation.h b/msat/hri/HRI_subframe_interpretation.h
index 7afb3d4..f16346f 100644
--- a/msat/hri/HRI_subframe_interpretation.h
+++ b/msat/hri/HRI_subframe_interpretation.h
@@ -30,7 +30,9 @@
 #define __HRI_SUBFRAME_INTERPRETATION_H__
 
 #include <msat/hri/HRI_machine.h>
+#include <cstring>
 #include <iostream>
+#include <string>
 
 typedef struct {
   float bbc1ir;
@@ -309,7 +311,7 @@ class HRI_subframe_interpretation {
          << "Completion of rectification    "
 	 << i.imag.imstat_10 << std::endl
          << "Completion of amplitude proc.  "
-	 << i.imag.imstat_10 << std::endl
+	 << i.imag.imstat_11 << std::endl
          << "Southern line                : "
 	 << i.imag.limhor_1 << std::endl
          << "Southern line, first pixel   : "
@@ -433,7 +435,7 @@ class HRI_subframe_interpretation {
          << "Max space count east V1      : "
 	 << i.imag.snmxep_v1 << std::endl
          << "Max space count east V2      : "
-	 << i.imag.snmxwp_v2 << std::endl
+	 << i.imag.snmxep_v2 << std::endl
          << "Max space count west IR      : "
 	 << i.imag.snmxwp_ir << std::endl 
          << "Max space count west WV      : "
@@ -441,11 +443,11 @@ class HRI_subframe_interpretation {
          << "Max space count west V1      : "
 	 << i.imag.snmxwp_v1 << std::endl
          << "Max space count west V2      : "
-	 << i.imag.snmxep_v2 << std::endl
+	 << i.imag.snmxwp_v2 << std::endl
 	 << "-----------------------------" << std::endl
 	 << "- Administrative Messages   -" << std::endl
 	 << "-----------------------------" << std::endl
-	 << i.mesg.admin_message << std::endl
+	 << std::string(i.mesg.admin_message, strnlen(i.mesg.admin_message, sizeof(i.mesg.admin_message))) << std::endl
 	 << "-----------------------------" << std::endl;
       return os;
     }
-- 
2.43.0


From 6c6e23a7a55573a3fb2f92606d56e76a6639d5b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 078/166] fix: date HRI images by UTC, with their day of the
 week

---
 msat/hri/HRI_subframe_identification.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index ffcff8b..41db13d 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -84,10 +84,12 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_year = year-1900;
   tmtime.tm_mday = 1;
   tmtime.tm_hour = 12;
-  jtime = mktime(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
+  jtime = timegm(&tmtime) + (time_t) (julian_day - 1) * 24 * 60 * 60;
   tm1time = gmtime(&jtime);
   month = tm1time->tm_mon + 1;
   day   = tm1time->tm_mday;
+  int wday = tm1time->tm_wday;
+  int yday = tm1time->tm_yday;
 
   nominal_time = conv.i2_from_buff((const unsigned char *) hsi+6);
   hour = nominal_time / 100;
@@ -99,6 +101,8 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_mday = day;
   tmtime.tm_hour = hour;
   tmtime.tm_min  = minute;
+  tmtime.tm_wday = wday;
+  tmtime.tm_yday = yday;
 
   datetime = asctime(&tmtime);
 
-- 
2.43.0


From 768217627f8bb5d58268474cb15ed45d8e9680c8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 079/166] fix: return a format name that outlives the call from
 Hri::get_format

---
 msat/hri/HRI.cpp | 3 ++-
 msat/hri/HRI.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c31b485..ea6371c 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -387,7 +387,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
 
 char * Hri::get_format( )
 {
-  return (char *) label.format_code( ).c_str( );
+  format_name = label.format_code( );
+  return (char *) format_name.c_str( );
 }
 
 struct tm *Hri::get_datetime( )
diff --git a/msat/hri/HRI.h b/msat/hri/HRI.h
index 3de761a..a735ff3 100644
--- a/msat/hri/HRI.h
+++ b/msat/hri/HRI.h
@@ -101,6 +101,7 @@ class Hri {
     HRI_subframe_interpretation interp;
     HRI_subframe_keyslot keys;
     HRI_geolocation geo;
+    std::string format_name;
 };
 
 #endif
-- 
2.43.0


From de87b9144e4e1b0949bd2b8e25ecb18243ba075b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 080/166] fix: refuse HRI files whose frames are not those of
 their format

Short B and X lines would be completed with whatever an earlier file had left
in the line buffer.
---
 msat/hri/HRI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index ea6371c..37b4165 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -81,6 +81,9 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
     interp.readfrom(interpretation_buffer);
   }
 
+  if (id != (label.is_A_format( ) ? HRI_A_FORMAT : HRI_BX_FORMAT))
+    throw std::runtime_error("frames of the HRI file are not those of its format");
+
   if (id == HRI_A_FORMAT)
   {
     char keybuff[1440];
-- 
2.43.0


From d8fbf3b89d430fb4fb4bc8f767f176f119349e38 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 081/166] fix: decode hexadecimal escapes in
 str::decode_cstring

atoi stops at the x of 0x, so that every \xNN became a NUL character.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..931aba9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -389,7 +389,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 05e93ab2efa201a3d2fe36e6142efdd73f2016d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 082/166] fix: ignore a lone partial escape in str::decode_url

The size of a one-character string minus two wraps around, and "%" was decoded
to a NUL character.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 931aba9..a3e012e 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -431,7 +431,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From d416b8112832e2f54f1cb9ac611f613c39f756e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 083/166] fix: do not read past the table in str::decode_base64

A "{" was looked up one element after the end of the decoding table.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index a3e012e..00a8300 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From 0ec7023851761f2b8388271a36aa00c302fdf5b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 084/166] fix: keep leading .. components in str::normpath

Paths that lead above their start accessed the last element of an empty vector.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 00a8300..cffdcf9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From daaf7795e1f3af301895d076ab35f8a842ea4bd0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 085/166] fix: return no empty tokens from str::Split with
 skip_empty

A string made only of separators gave one, and an empty separator made it loop
forever.
---
 msat/utils/string.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index cffdcf9..319a100 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -214,7 +214,11 @@ Split::const_iterator::const_iterator(const Split& split_)
     {
         // Ignore leading separators if skip_end is true
         if (split_.skip_empty) skip_separators();
-        ++*this;
+        if (split_.skip_empty && end == split_.str.size())
+            // There are only separators
+            this->split = nullptr;
+        else
+            ++*this;
     }
 }
 
@@ -235,6 +239,9 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
+    // An empty separator is nowhere to be skipped
+    if (sep.empty()) return;
+
     while (end + sep.size() <= str.size())
     {
         unsigned i = 0;
-- 
2.43.0


From ae59aff2496b0797234f2a21fcca28dde22797a2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 086/166] fix: let str::Split iterators past the end have an
 empty remainder

Splitting an empty string gives such an iterator from begin(), and remainder()
dereferenced its null pointer.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 319a100..62cca36 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -228,7 +228,7 @@ Split::const_iterator::~const_iterator()
 
 std::string Split::const_iterator::remainder() const
 {
-    if (end == std::string::npos)
+    if (!split || end == std::string::npos)
         return std::string();
     else
         return split->str.substr(end);
-- 
2.43.0


From a71239a10a9070de3efa0f3e45e47fc8df32c059 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 087/166] fix: look at used entries only in iniparser queries

Unused entries have hash 0, like the empty key: querying it dereferenced NULL.
---
 msat/iniparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 9625def..fc303a7 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -339,7 +339,7 @@ static char * dictionary_get(dictionary * d, char * key, char * def)
 
     hash = dictionary_hash(key);
     for (i=0 ; i<d->size ; i++) {
-        if (d->key==NULL)
+        if (d->key[i]==NULL)
             continue ;
         /* Compare hash */
         if (hash==d->hash[i]) {
-- 
2.43.0


From 14f7d1f22fe0448a171942cd56d5c9cab0015fd3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 088/166] fix: give the default for iniparser entries that have
 no value

Typed queries of sections and of entries set to NULL dereferenced NULL.
---
 msat/iniparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fc303a7..b03d333 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -755,7 +755,7 @@ int iniparser_getint(dictionary * d, char * key, int notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atoi(str);
 }
 
@@ -778,7 +778,7 @@ double iniparser_getdouble(dictionary * d, char * key, double notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atof(str);
 }
 
@@ -822,7 +822,7 @@ int iniparser_getboolean(dictionary * d, char * key, int notfound)
     int         ret ;
 
     c = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (c==INI_INVALID_KEY) return notfound ;
+    if (c==INI_INVALID_KEY || c==NULL) return notfound ;
     if (c[0]=='y' || c[0]=='Y' || c[0]=='1' || c[0]=='t' || c[0]=='T') {
         ret = 1 ;
     } else if (c[0]=='n' || c[0]=='N' || c[0]=='0' || c[0]=='f' || c[0]=='F') {
-- 
2.43.0


From 5ab282245ed0d2827c4aba8c9ba09aaeda2c6a40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 089/166] fix: let iniparser_setstr take the current value of
 the entry

It was freed before it was copied.
---
 msat/iniparser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index b03d333..2f35ffc 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -395,9 +395,11 @@ static void dictionary_set(dictionary * d, char * key, char * val)
             if (hash==d->hash[i]) { /* Same hash value */
                 if (!strcmp(key, d->key[i])) {   /* Same key */
                     /* Found a value: modify and return */
+                    /* The new value may be (part of) the current one */
+                    val = val ? strdup(val) : NULL ;
                     if (d->val[i]!=NULL)
                         free(d->val[i]);
-                    d->val[i] = val ? strdup(val) : NULL ;
+                    d->val[i] = val ;
                     /* Value has been modified: return */
                     return ;
                 }
-- 
2.43.0


From f797fbc287a18e262cd607992f6076da8adab164 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 090/166] fix: find iniparser entries of any length

Keys were cut to 1024 characters when querying, setting and removing entries,
but section and key of a file can be longer together.
---
 msat/iniparser.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 2f35ffc..fba70fc 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -197,6 +197,21 @@ static char * strstrip(char * s)
 }
 
 
+/* Lowercase copy of a whole string, to be freed by the caller */
+static char * strlwc_dup(char * s)
+{
+    char * l ;
+    int i ;
+
+    if (s==NULL) return NULL ;
+    l = strdup(s);
+    for (i=0 ; l[i] ; i++) {
+        l[i] = (char)tolower((int)l[i]);
+    }
+    return l ;
+}
+
+
 /* dictionary.c.c following */
 /** Maximum value size for integers and doubles. */
 #define MAXVALSZ    1024
@@ -731,7 +746,7 @@ char * iniparser_getstring(dictionary * d, char * key, char * def)
     if (d==NULL || key==NULL)
         return def ;
 
-    lc_key = strdup(strlwc(key));
+    lc_key = strlwc_dup(key);
     sval = dictionary_get(d, lc_key, def);
     free(lc_key);
     return sval ;
@@ -879,7 +894,13 @@ int iniparser_find_entry(
 
 int iniparser_setstr(dictionary * ini, char * entry, char * val)
 {
-    dictionary_set(ini, strlwc(entry), val);
+    char * lc_key ;
+
+    if (ini==NULL || entry==NULL) return -1 ;
+
+    lc_key = strlwc_dup(entry);
+    dictionary_set(ini, lc_key, val);
+    free(lc_key);
     return 0 ;
 }
 
@@ -895,7 +916,13 @@ int iniparser_setstr(dictionary * ini, char * entry, char * val)
 /*--------------------------------------------------------------------------*/
 void iniparser_unset(dictionary * ini, char * entry)
 {
-    dictionary_unset(ini, strlwc(entry));
+    char * lc_key ;
+
+    if (ini==NULL || entry==NULL) return ;
+
+    lc_key = strlwc_dup(entry);
+    dictionary_unset(ini, lc_key);
+    free(lc_key);
 }
 
 
-- 
2.43.0


From ebc15514d3661ff25eb82a1c85eaae7f94f522f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 091/166] fix: read empty and blank-terminated quoted values of
 ini files

The line end after "" made it a value of two quotes, and blanks before the
closing quote were removed.
---
 msat/iniparser.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fba70fc..3523553 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -974,17 +974,20 @@ dictionary * iniparser_new(char *ininame)
                 strcpy(sec, strlwc(sec));
                 iniparser_add_entry(d, sec, NULL, NULL);
             } else if (sscanf (where, "%[^=] = \"%[^\"]\"", key, val) == 2
-                   ||  sscanf (where, "%[^=] = '%[^\']'",   key, val) == 2
-                   ||  sscanf (where, "%[^=] = %[^;#]",     key, val) == 2) {
+                   ||  sscanf (where, "%[^=] = '%[^\']'",   key, val) == 2) {
                 strcpy(key, strlwc(strcrop(key)));
+                /* Blanks are part of quoted values, line ends are not */
+                val[strcspn(val, "\r\n")] = (char)0;
+                iniparser_add_entry(d, sec, key, val);
+            } else if (sscanf (where, "%[^=] = %[^;#]",     key, val) == 2) {
+                strcpy(key, strlwc(strcrop(key)));
+                strcpy(val, strcrop(val));
                 /*
                  * sscanf cannot handle "" or '' as empty value,
                  * this is done here
                  */
                 if (!strcmp(val, "\"\"") || !strcmp(val, "''")) {
                     val[0] = (char)0;
-                } else {
-                    strcpy(val, strcrop(val));
                 }
                 iniparser_add_entry(d, sec, key, val);
             }
-- 
2.43.0


From 0f8db8060c186d86d1662578e2ec450bc7ef7db8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 092/166] fix: write ini files that give the same entries when
 parsed

iniparser_dump_ini left out the keys before the first section, or wrote them
with a colon in front, and wrote values that need quotes without. It overflowed
a buffer with section names of more than 1023 characters.
---
 msat/iniparser.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 3523553..2ba6318 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -647,6 +647,22 @@ void iniparser_dump(dictionary * d, FILE * f)
 }
 
 
+/* Private: write an entry so that iniparser_new reads the same value */
+static void iniparser_dump_entry(char * key, char * val, FILE * f)
+{
+    const char * quote = "" ;
+    int          len ;
+
+    if (val==NULL) val = "" ;
+    len = (int)strlen(val);
+    if (len==0 || strpbrk(val, ";#")!=NULL || val[0]=='"' || val[0]=='\''
+     || isspace((int)val[0]) || isspace((int)val[len-1])) {
+        quote = strchr(val, '"')==NULL ? "\"" : "'" ;
+    }
+    fprintf(f, "%-30s = %s%s%s\n", key, quote, val, quote);
+}
+
+
 /*-------------------------------------------------------------------------*/
 /**
   @brief    Save a dictionary to a loadable ini file
@@ -662,7 +678,6 @@ void iniparser_dump(dictionary * d, FILE * f)
 void iniparser_dump_ini(dictionary * d, FILE * f)
 {
     int     i, j ;
-    char    keym[ASCIILINESZ+1];
     int     nsec ;
     char *  secname ;
     int     seclen ;
@@ -670,28 +685,27 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
     if (d==NULL || f==NULL) return ;
 
     nsec = iniparser_getnsec(d);
-    if (nsec<1) {
-        /* No section in file: dump all keys as they are */
-        for (i=0 ; i<d->size ; i++) {
-            if (d->key[i]==NULL)
-                continue ;
-            fprintf(f, "%s = %s\n", d->key[i], d->val[i]);
+    /* Keys before the first section, or all keys if there are no sections */
+    for (i=0 ; i<d->size ; i++) {
+        if (d->key[i]==NULL)
+            continue ;
+        if (d->key[i][0]==':') {
+            iniparser_dump_entry(d->key[i]+1, d->val[i], f);
+        } else if (nsec<1) {
+            iniparser_dump_entry(d->key[i], d->val[i], f);
         }
-        return ;
     }
+    if (nsec<1) return ;
     for (i=0 ; i<nsec ; i++) {
         secname = iniparser_getsecname(d, i) ;
         seclen  = (int)strlen(secname);
         fprintf(f, "\n[%s]\n", secname);
-        sprintf(keym, "%s:", secname);
         for (j=0 ; j<d->size ; j++) {
             if (d->key[j]==NULL)
                 continue ;
-            if (!strncmp(d->key[j], keym, seclen+1)) {
-                fprintf(f,
-                        "%-30s = %s\n",
-                        d->key[j]+seclen+1,
-                        d->val[j] ? d->val[j] : "");
+            if (!strncmp(d->key[j], secname, seclen)
+             && d->key[j][seclen]==':') {
+                iniparser_dump_entry(d->key[j]+seclen+1, d->val[j], f);
             }
         }
     }
-- 
2.43.0


From 426949312b997092ccb1b6aa16104b95d8bf1a86 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 093/166] fix: do not follow symbolic links when testing for
 them

---
 msat/utils/sys.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index c1161a6..eb452b7 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -132,7 +132,14 @@ bool isfifo(const std::string& pathname)
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    struct stat st;
+    if (::lstat(pathname.c_str(), &st) == -1) {
+        if (errno == ENOENT)
+            return false;
+        else
+            throw std::system_error(errno, std::system_category(), "cannot stat " + pathname);
+    }
+    return S_ISLNK(st.st_mode);
 }
 
 bool isreg(const std::string& pathname)
-- 
2.43.0


From b7ae36e4fb336ce561118fef897f9fceab122ea6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 094/166] fix: tell the type of directory entries without
 following links where d_type is unknown

---
 msat/utils/sys.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index eb452b7..b4ac7dc 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -773,7 +773,7 @@ bool Path::iterator::isdir() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISDIR(st.st_mode);
 }
 
@@ -787,7 +787,7 @@ bool Path::iterator::isblk() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISBLK(st.st_mode);
 }
 
@@ -801,7 +801,7 @@ bool Path::iterator::ischr() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISCHR(st.st_mode);
 }
 
@@ -815,7 +815,7 @@ bool Path::iterator::isfifo() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISFIFO(st.st_mode);
 }
 
@@ -828,7 +828,7 @@ bool Path::iterator::islnk() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISLNK(st.st_mode);
 }
 
@@ -841,7 +841,7 @@ bool Path::iterator::isreg() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISREG(st.st_mode);
 }
 
@@ -854,7 +854,7 @@ bool Path::iterator::issock() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISSOCK(st.st_mode);
 }
 
-- 
2.43.0


From a7c45287a7687366daddad1161be52d549e7339a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 095/166] fix: keep rmtree inside its tree when a subdirectory
 becomes a link

---
 msat/utils/sys.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index b4ac7dc..e91dcbf 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -864,19 +864,30 @@ Path Path::iterator::open_path(int flags) const
 }
 
 
-void Path::rmtree()
+// Delete everything inside a directory. Subdirectories are opened without
+// following links and removed through their parent's descriptor, so nothing
+// outside of the tree is touched even if it changes in the meantime
+static void rmtree_contents(Path& dir)
 {
-    for (auto i = begin(); i != end(); ++i)
+    for (auto i = dir.begin(); i != dir.end(); ++i)
     {
         if (strcmp(i->d_name, ".") == 0 || strcmp(i->d_name, "..") == 0) continue;
         if (i.isdir())
         {
-            Path sub(*this, i->d_name);
-            sub.rmtree();
+            {
+                Path sub(dir, i->d_name, O_DIRECTORY | O_NOFOLLOW);
+                rmtree_contents(sub);
+            }
+            dir.rmdirat(i->d_name);
         }
         else
-            unlinkat(i->d_name);
+            dir.unlinkat(i->d_name);
     }
+}
+
+void Path::rmtree()
+{
+    rmtree_contents(*this);
     // TODO: is there a way to do this using fd instead?
     std::filesystem::remove(path_);
 }
-- 
2.43.0


From e9714d7e0cdafdaf2e0fc783f0f9c37f881deafa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 096/166] fix: do not leak descriptors when a directory cannot
 be read

---
 msat/utils/sys.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index e91dcbf..66282d1 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -598,7 +598,12 @@ DIR* Path::fdopendir()
 
     DIR* res = ::fdopendir(fd1);
     if (!res)
+    {
+        int saved_errno = errno;
+        ::close(fd1);
+        errno = saved_errno;
         throw_error("cannot fdopendir");
+    }
 
     return res;
 }
@@ -725,7 +730,12 @@ Path::iterator::iterator(Path& dir_)
     : path(&dir_)
 {
     dir = dir_.fdopendir();
-    operator++();
+    try {
+        operator++();
+    } catch (...) {
+        closedir(dir);
+        throw;
+    }
 }
 
 Path::iterator::~iterator()
-- 
2.43.0


From f690d6813f54262ff030bfaab3a9a57330430270 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 097/166] fix: keep the path of moved directory iterators

---
 msat/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/sys.h b/msat/utils/sys.h
index 4289bc6..7748e9d 100644
--- a/msat/utils/sys.h
+++ b/msat/utils/sys.h
@@ -420,7 +420,7 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
             o.dir = nullptr;
             o.cur_entry = nullptr;
-- 
2.43.0


From fbdbd7cc143f8add984b8626994d6a21a8808135 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 098/166] fix: do not close again a descriptor whose close
 failed

---
 msat/utils/sys.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 66282d1..32b1e02 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -300,9 +300,11 @@ bool FileDescriptor::is_open() const { return fd != -1; }
 void FileDescriptor::close()
 {
     if (fd == -1) return;
-    if (::close(fd) == -1)
-        throw_error("cannot close");
+    // Even when close fails, the file descriptor is gone
+    int old_fd = fd;
     fd = -1;
+    if (::close(old_fd) == -1)
+        throw_error("cannot close");
 }
 
 void FileDescriptor::fstat(struct stat& st)
-- 
2.43.0


From 855d9a1de3f5cc5428bdfe4783dfa60a8244cf20 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 099/166] fix: allow assigning to a moved or unmapped MMap

---
 msat/utils/sys.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 32b1e02..831e014 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -266,9 +266,11 @@ MMap::~MMap()
 
 void MMap::munmap()
 {
+    if (addr == MAP_FAILED) return;
     if (::munmap(addr, length) == -1)
         throw std::system_error(errno, std::system_category(), "cannot unmap memory");
     addr = MAP_FAILED;
+    length = 0;
 }
 
 
-- 
2.43.0


From 54645156ba9db9c11a02155b002f2a70fa651496 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 100/166] fix: read whole files that have no size or change
 size

---
 msat/utils/sys.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 831e014..703f083 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1078,17 +1078,23 @@ std::string read_file(const std::filesystem::path& file)
 {
     File in(file, O_RDONLY);
 
-    // Get the file size
+    // Use the file size only as a hint: it is 0 for pipes or files in /proc,
+    // and the file can change while we read it
     struct stat st;
     in.fstat(st);
 
-    if (st.st_size == 0)
-        return std::string();
-
-    // mmap the input file
-    MMap src = in.mmap(st.st_size, PROT_READ, MAP_SHARED);
-
-    return std::string(static_cast<const char*>(src), st.st_size);
+    std::string res;
+    size_t done = 0;
+    while (true)
+    {
+        if (done == res.size())
+            res.resize(done == 0 ? static_cast<size_t>(st.st_size) + 1 : done * 2 + 4096);
+        size_t count = in.read(&res[done], res.size() - done);
+        if (count == 0) break;
+        done += count;
+    }
+    res.resize(done);
+    return res;
 }
 
 void write_file(const char* file, const std::string& data, mode_t mode)
-- 
2.43.0


From 18b4e54cad9edc6638a8d097e15bd17bd375ae47 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 101/166] fix: do not leave the temporary file of failed atomic
 writes behind

---
 msat/utils/sys.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 703f083..61f079f 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1153,18 +1153,24 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 {
     File out = File::mkstemp(file);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
+    try {
+        // Read the umask
+        mode_t mask = umask(0777);
+        umask(mask);
 
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
+        // Set the file permissions, honoring umask
+        out.fchmod(mode & ~mask);
 
-    out.write_all_or_retry(data, size);
-    out.close();
+        out.write_all_or_retry(data, size);
+        out.close();
 
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    } catch (...) {
+        // Do not leave the temporary file behind
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 5a0cfbdea6951ea731a2b1c36727e730ce008dbe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 102/166] fix: do not terminate the program when cleaning up
 fails

---
 msat/utils/sys.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 61f079f..be3763d 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -513,7 +513,10 @@ PreserveFileTimes::PreserveFileTimes(FileDescriptor fd_)
 
 PreserveFileTimes::~PreserveFileTimes()
 {
-    fd.futimens(ts);
+    try {
+        fd.futimens(ts);
+    } catch (...) {
+    }
 }
 
 
@@ -1026,7 +1029,10 @@ Tempfile::Tempfile(const char* prefix) : sys::File(sys::File::mkstemp(prefix)) {
 Tempfile::~Tempfile()
 {
     if (m_unlink_on_exit)
-        std::filesystem::remove(path_);
+    {
+        std::error_code ec;
+        std::filesystem::remove(path_, ec);
+    }
 }
 
 void Tempfile::unlink_on_exit(bool val)
@@ -1387,7 +1393,10 @@ OverrideRlimit::OverrideRlimit(int resource_, rlim_t rlim)
 
 OverrideRlimit::~OverrideRlimit()
 {
-    setrlimit(resource, orig);
+    try {
+        setrlimit(resource, orig);
+    } catch (...) {
+    }
 }
 
 void OverrideRlimit::set(rlim_t rlim)
-- 
2.43.0


From fcaa48839ccbfb3b0b7bdda9965895c0018c62e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 103/166] fix: report renames into a missing directory

---
 msat/utils/sys.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index be3763d..a3df4b7 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1236,8 +1236,11 @@ bool rename_ifexists(const std::filesystem::path& src, const std::filesystem::pa
 {
     if (::rename(src.c_str(), dst.c_str()) != 0)
     {
-        if (errno != ENOENT)
-            throw std::system_error(errno, std::system_category(), "cannot rename "s + src.native() + " to " + dst.native());
+        int rename_errno = errno;
+        struct stat st;
+        // ENOENT may also mean that the destination directory does not exist
+        if (rename_errno != ENOENT || ::lstat(src.c_str(), &st) == 0)
+            throw std::system_error(rename_errno, std::system_category(), "cannot rename "s + src.native() + " to " + dst.native());
         else
             return false;
     }
-- 
2.43.0


From 09bd980d0d327b234b068ddde341294687fa68eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 104/166] fix: do not take directories in $PATH for executables

---
 msat/utils/sys.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index a3df4b7..9742da1 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1279,7 +1279,8 @@ std::filesystem::path which(const std::string& name)
     for (const auto& i: splitter)
     {
         auto candidate = std::filesystem::path(i) / name;
-        if (sys::access(candidate, X_OK))
+        struct stat st;
+        if (sys::access(candidate, X_OK) && ::stat(candidate.c_str(), &st) == 0 && S_ISREG(st.st_mode))
             return std::filesystem::absolute(candidate);
     }
 
-- 
2.43.0


From 21ec2cf877a38cd67bc2085c808a2cc43b011c6e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 105/166] fix: redirect child descriptors that are standard
 ones or shared

---
 msat/utils/subprocess.cc | 122 +++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 63 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 6d7b058..4ce606f 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -200,81 +200,77 @@ void Child::post_fork_parent()
     }
 }
 
+/**
+ * Return a file descriptor for the same file as fd, that is not one of the
+ * standard ones, so that it stays valid while they get redirected.
+ */
+static int above_std(int fd, const char* errmsg)
+{
+    int res = fcntl(fd, F_DUPFD, STDERR_FILENO + 1);
+    if (res == -1)
+        throw std::system_error(errno, std::system_category(), errmsg);
+    return res;
+}
+
+static int open_devnull()
+{
+    int fd = ::open("/dev/null", O_RDWR);
+    if (fd == -1)
+        throw std::system_error(errno, std::system_category(), "cannot open /dev/null");
+    return fd;
+}
+
 static void redirect(int newfd, int oldfd, const char* errmsg)
 {
+    if (newfd == -1) return;
     if (dup2(newfd, oldfd) == -1)
         throw std::system_error(errno, std::system_category(), errmsg);
-    if (close(newfd) == -1 )
+    if (close(newfd) == -1)
         throw std::system_error(errno, std::system_category(), errmsg);
 }
 
-void Child::post_fork_child()
+/// Get hold of the child end of a redirection, closing the originals of pipes
+static int redirect_source(Redirect action, int child_fd, int parent_fd, const char* errmsg)
 {
+    int res = -1;
+    switch (action)
     {
-        sys::File fd_devnull("/dev/null");
-
-        switch (m_stdin_action)
-        {
-            case Redirect::FD:
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stdin[1]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close write end of stdin pipe in child process");
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDIN_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stdin to /dev/null");
-                break;
-            default:
-                break;
-        }
-
-        switch (m_stdout_action)
+        case Redirect::FD:
+            res = above_std(child_fd, errmsg);
+            break;
+        case Redirect::PIPE:
+            res = above_std(child_fd, errmsg);
+            if (close(child_fd) == -1 || close(parent_fd) == -1)
+                throw std::system_error(errno, std::system_category(), errmsg);
+            break;
+        case Redirect::DEVNULL:
         {
-            case Redirect::FD:
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stdout[0]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in child process");
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDOUT_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stdout to /dev/null");
-                break;
-            default:
-                break;
+            int fd_devnull = open_devnull();
+            res = above_std(fd_devnull, errmsg);
+            close(fd_devnull);
+            break;
         }
+        default:
+            break;
+    }
+    return res;
+}
 
-        switch (m_stderr_action)
-        {
-            case Redirect::FD:
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stderr[0]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in child process");
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDERR_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr to /dev/null");
-                break;
-            case Redirect::STDOUT:
-                if (dup2(STDOUT_FILENO, STDERR_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr to stdout");
-            default:
-                break;
-        }
+void Child::post_fork_child()
+{
+    {
+        // Collect all the sources before redirecting, since any of them can be
+        // a standard file descriptor or be used more than once
+        int new_stdin = redirect_source(m_stdin_action, m_stdin[0], m_stdin[1], "failed to redirect stdin");
+        int new_stdout = redirect_source(m_stdout_action, m_stdout[1], m_stdout[0], "failed to redirect stdout");
+        int new_stderr = redirect_source(m_stderr_action, m_stderr[1], m_stderr[0], "failed to redirect stderr");
+
+        redirect(new_stdin, STDIN_FILENO, "failed to redirect stdin");
+        redirect(new_stdout, STDOUT_FILENO, "failed to redirect stdout");
+        redirect(new_stderr, STDERR_FILENO, "failed to redirect stderr");
+
+        if (m_stderr_action == Redirect::STDOUT && dup2(STDOUT_FILENO, STDERR_FILENO) == -1)
+            throw std::system_error(errno, std::system_category(), "failed to redirect stderr to stdout");
     }
 
     // Close parent file descriptors if requested
-- 
2.43.0


From 5675449e1c433423892109cdd5ffe29725e7fc23 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 106/166] fix: do not leak pipes when a child process cannot be
 started

---
 msat/utils/subprocess.cc | 64 ++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 4ce606f..81709f9 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -10,39 +10,27 @@
 #include <cstring>
 #include <system_error>
 #include <algorithm>
+#include <utility>
 #include <sstream>
 
 namespace msat {
 namespace subprocess {
 
-Child::~Child()
+static void close_pipe(Redirect action, int (&fds)[2])
 {
-    switch (m_stdin_action)
-    {
-        case Redirect::PIPE:
-            if (m_stdin[1] != -1) ::close(m_stdin[1]);
-            break;
-        default:
-            break;
-    }
-
-    switch (m_stdout_action)
+    if (action != Redirect::PIPE) return;
+    for (auto& fd: fds)
     {
-        case Redirect::PIPE:
-            if (m_stdout[0] != -1) ::close(m_stdout[0]);
-            break;
-        default:
-            break;
+        if (fd != -1) ::close(fd);
+        fd = -1;
     }
+}
 
-    switch (m_stderr_action)
-    {
-        case Redirect::PIPE:
-            if (m_stderr[0] != -1) ::close(m_stderr[0]);
-            break;
-        default:
-            break;
-    }
+Child::~Child()
+{
+    close_pipe(m_stdin_action, m_stdin);
+    close_pipe(m_stdout_action, m_stdout);
+    close_pipe(m_stderr_action, m_stderr);
 }
 
 int Child::returncode() const
@@ -96,6 +84,7 @@ void Child::set_stdin(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdin[0] = m_stdin[1] = -1;
     m_stdin_action = val;
 }
 
@@ -103,6 +92,7 @@ void Child::set_stdout(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdout[0] = m_stdout[1] = -1;
     m_stdout_action = val;
 }
 
@@ -110,6 +100,7 @@ void Child::set_stderr(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stderr after the child process has started");
+    m_stderr[0] = m_stderr[1] = -1;
     m_stderr_action = val;
 }
 
@@ -169,9 +160,8 @@ void Child::post_fork_parent()
     switch (m_stdin_action)
     {
         case Redirect::PIPE:
-            if (close(m_stdin[0]) == -1)
+            if (close(std::exchange(m_stdin[0], -1)) == -1)
                 throw std::system_error(errno, std::system_category(), "failed close read end of stdin pipe in parent process");
-            m_stdin[0] = -1;
             break;
         default:
             break;
@@ -180,9 +170,8 @@ void Child::post_fork_parent()
     switch (m_stdout_action)
     {
         case Redirect::PIPE:
-            if (close(m_stdout[1]) == -1)
+            if (close(std::exchange(m_stdout[1], -1)) == -1)
                 throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in parent process");
-            m_stdout[1] = -1;
             break;
         default:
             break;
@@ -191,9 +180,8 @@ void Child::post_fork_parent()
     switch (m_stderr_action)
     {
         case Redirect::PIPE:
-            if (close(m_stderr[1]) == -1)
+            if (close(std::exchange(m_stderr[1], -1)) == -1)
                 throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in parent process");
-            m_stderr[1] = -1;
             break;
         default:
             break;
@@ -308,9 +296,16 @@ void Child::fork()
     if (!pass_fds.empty())
         close_fds = true;
 
-    pre_fork();
-
     pid_t pid;
+    try {
+        pre_fork();
+    } catch (...) {
+        close_pipe(m_stdin_action, m_stdin);
+        close_pipe(m_stdout_action, m_stdout);
+        close_pipe(m_stderr_action, m_stderr);
+        throw;
+    }
+
     if ((pid = ::fork()) == 0)
     {
         try {
@@ -324,6 +319,11 @@ void Child::fork()
         }
         _exit(main());
     } else if (pid < 0) {
+        int fork_errno = errno;
+        close_pipe(m_stdin_action, m_stdin);
+        close_pipe(m_stdout_action, m_stdout);
+        close_pipe(m_stderr_action, m_stderr);
+        errno = fork_errno;
         throw std::system_error(errno, std::system_category(), "failed to fork()");
     } else {
         m_pid = pid;
-- 
2.43.0


From 6a0ce4b7c5f466a0152e40785944f4c15e86d1a2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 107/166] fix: tell killed children from successful ones, and
 finished ones from timeouts

---
 msat/utils/subprocess.cc | 4 +++-
 msat/utils/subprocess.h  | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 81709f9..47a1d4e 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -35,6 +35,8 @@ Child::~Child()
 
 int Child::returncode() const
 {
+    if (WIFSIGNALED(m_returncode))
+        return -WTERMSIG(m_returncode);
     return WEXITSTATUS(m_returncode);
 }
 
@@ -406,7 +408,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
diff --git a/msat/utils/subprocess.h b/msat/utils/subprocess.h
index cc81a15..6b5f4a0 100644
--- a/msat/utils/subprocess.h
+++ b/msat/utils/subprocess.h
@@ -118,6 +118,8 @@ public:
     /**
      * Return the return code of the subprocess; this is undefined if it has
      * not terminated yet.
+     *
+     * If the subprocess was killed by a signal, it is the negated signal number.
      */
     int returncode() const;
 
-- 
2.43.0


From 508176eba956a11cc3dd36bdd4ea8a30893520b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 108/166] fix: keep waiting for the child when interrupted by a
 signal

---
 msat/utils/subprocess.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 47a1d4e..e6f8697 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -365,7 +365,10 @@ int Child::wait()
     if (m_terminated)
         return returncode();
 
-    pid_t res = waitpid(m_pid, &m_returncode, 0);
+    pid_t res;
+    do
+        res = waitpid(m_pid, &m_returncode, 0);
+    while (res == -1 && errno == EINTR);
     if (res == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From 9dee6d0d9253a8dae502ea82253e3c5fb2218022 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 109/166] fix: never signal the own process group or reused
 PIDs

kill(0) signals all the processes of the process group of the caller.
---
 msat/utils/subprocess.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index e6f8697..49b2a9a 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -458,6 +458,15 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        throw std::runtime_error("send_signal called before Child process was started");
+
+    // Once waited for, the PID can belong to another process
+    if (m_terminated)
+        throw std::system_error(
+                ESRCH, std::system_category(),
+                "cannot send signal " + std::to_string(sig) + " to child PID " + std::to_string(m_pid));
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From e90ce90addea8ff55a864ec3217377371191cbb0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 110/166] fix: restore the SIGCHLD action completely after
 waiting

---
 msat/utils/subprocess.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 49b2a9a..7f11b2f 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -382,12 +382,15 @@ namespace {
 
 struct enable_sigchld
 {
-    sighandler_t prev_handler;
+    struct sigaction prev_action;
 
     enable_sigchld()
-        : prev_handler(signal(SIGCHLD, empty_handler))
     {
-        if (prev_handler == SIG_ERR)
+        struct sigaction action = {};
+        action.sa_handler = empty_handler;
+        sigemptyset(&action.sa_mask);
+        action.sa_flags = SA_RESTART;
+        if (sigaction(SIGCHLD, &action, &prev_action) == -1)
             throw std::system_error(
                     errno, std::system_category(),
                     "failed set signal handler for SIGCHLD");
@@ -395,7 +398,7 @@ struct enable_sigchld
 
     ~enable_sigchld()
     {
-        signal(SIGCHLD, prev_handler);
+        sigaction(SIGCHLD, &prev_action, nullptr);
     }
 
     static void empty_handler(int)
-- 
2.43.0


From d1682fdf2a5da5aac744c7a3f3d9ba4adaa7ee20 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 111/166] fix: replace the environment when copying it from the
 parent

---
 msat/utils/subprocess.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 7f11b2f..f0af133 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -512,6 +512,7 @@ Popen::Popen(std::initializer_list<std::string> args_)
 
 void Popen::copy_env_from_parent()
 {
+    env.clear();
     for (char** s = environ; *s; ++s)
         env.emplace_back(*s);
 }
-- 
2.43.0


From 9cdb313e6435ac3665ac3ae2ea7c8747f03e73e3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 112/166] fix: report OpenMTP files that cannot be read instead
 of terminating

---
 msat/openmtp/OpenMTP.cpp               |  4 +++-
 msat/openmtp/OpenMTP_ascii_header.cpp  |  3 ++-
 msat/openmtp/OpenMTP_binary_header.cpp | 11 ++++++-----
 msat/openmtp/OpenMTP_image_line.cpp    |  3 ++-
 tools/openmtp/OpenMTP_info.cc          | 12 +++++++++---
 5 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 15a70e9..5b67272 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -30,6 +30,8 @@
 #include <fstream>
 #include <time.h>
 #include <stdlib.h>
+#include <stdexcept>
+#include <string>
 #include "OpenMTP_ascii_header.h"
 #include "OpenMTP_binary_header.h"
 #include "OpenMTP_image.h"
@@ -44,7 +46,7 @@ void OpenMTP::open( char *inname )
   if (infile.fail())
   {
     cerr << "Cannot open input OpenMTP file " << inname << endl;
-    throw;
+    throw std::runtime_error(std::string("cannot open input OpenMTP file ") + inname);
   }
   read(infile);
   return;
diff --git a/msat/openmtp/OpenMTP_ascii_header.cpp b/msat/openmtp/OpenMTP_ascii_header.cpp
index 742491a..e3d4e69 100644
--- a/msat/openmtp/OpenMTP_ascii_header.cpp
+++ b/msat/openmtp/OpenMTP_ascii_header.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 
 OpenMTP_ascii_header::OpenMTP_ascii_header( ) { }
@@ -45,7 +46,7 @@ void OpenMTP_ascii_header::read( std::ifstream &file )
   if (file.fail( ))
   {
     std::cerr << "Read error from OpenMTP file: ASCII Header." << std::endl;
-    throw;
+    throw std::runtime_error("read error from OpenMTP file: ASCII Header");
   }
   header[ASCII_HEADER_LENGTH] = 0;
   return;
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index e62456b..1263a5b 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -30,6 +30,7 @@
 #include <string.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_machine.h"
 #include "OpenMTP_binary_header.h"
 
@@ -50,7 +51,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
   if (file.fail( ))
   {
     std::cerr << "Read error : BINARY Header, first section." << std::endl;
-    throw;
+    throw std::runtime_error("read error : BINARY Header, first section");
   }
 
   pnt = header + BINARY_HEADER_FIRST_SECTION_LENGTH;
@@ -61,7 +62,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("read error : BINARY Header, second section");
     }
   }
   else
@@ -70,7 +71,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("read error : BINARY Header, second section");
     }
   }
 
@@ -81,7 +82,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("read error : BINARY Header, third section");
     }
   }
   else
@@ -90,7 +91,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     if (file.fail( ))
     {
       std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("read error : BINARY Header, third section");
     }
   }
 
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 9c88faa..0bfcb37 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image_line.h"
 
 OpenMTP_image_line::OpenMTP_image_line( ) { }
@@ -46,7 +47,7 @@ void OpenMTP_image_line::read( std::ifstream &file, int npixels)
   if (file.fail( ))
   {
     std::cerr << "Read error from OpenMTP file: Image Line." << std::endl;
-    throw;
+    throw std::runtime_error("read error from OpenMTP file: Image Line");
   }
   return;
 }
diff --git a/tools/openmtp/OpenMTP_info.cc b/tools/openmtp/OpenMTP_info.cc
index da5dc6f..98331b2 100644
--- a/tools/openmtp/OpenMTP_info.cc
+++ b/tools/openmtp/OpenMTP_info.cc
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstdlib>
+#include <exception>
 
 // OpenMTP format interface
 
@@ -36,9 +37,14 @@
 static bool
 OpenMTP_info( char *inpath )
 {
-  OpenMTP omtp;
-  omtp.open(inpath);
-  std::cout << omtp;
+  try {
+    OpenMTP omtp;
+    omtp.open(inpath);
+    std::cout << omtp;
+  } catch (std::exception& e) {
+    std::cerr << inpath << ": " << e.what() << std::endl;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 89c1b7ef01d6a35e28f679c3552e4d14aeb0cf05 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 113/166] fix: read the whole raw image histograms of OpenMTP
 files

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 1263a5b..7ce8f76 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -476,7 +476,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+5319+4*i);
   return tmp;
 }
@@ -484,7 +484,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram_VISn( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+6343+4*i);
   return tmp;
 }
-- 
2.43.0


From 87a295a29ec5cdca59290fec4440d124a0ea728f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 114/166] fix: read the times of the horizon scan lines of
 OpenMTP files where they are

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 7ce8f76..099b7b6 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -608,8 +608,8 @@ short *OpenMTP_binary_header::urec_horizon_limit_information( )
 double *OpenMTP_binary_header::urec_times_of_horizon_scan_lines( )
 {
   static double tmp[2];
-  tmp[0] = m.float8(header+7579);
-  tmp[1] = m.float8(header+7579+8);
+  tmp[0] = m.float8(header+7603);
+  tmp[1] = m.float8(header+7603+8);
   return tmp;
 }
 short OpenMTP_binary_header::urec_radiometer_step_south( )
-- 
2.43.0


From 07213f80bd663e412a880a72cac86a269759fc0d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 115/166] fix: tell OpenMTP subwindows from A and B format
 images

---
 msat/openmtp/OpenMTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 5b67272..c0f642e 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -135,7 +135,7 @@ bool OpenMTP::is_B_format( )
 
 bool OpenMTP::is_subwindow( )
 {
-  return (!is_A_format( ) || !is_B_format( ));
+  return (!is_A_format( ) && !is_B_format( ));
 }
 
 int OpenMTP::nlines( ) { return binary_header.nlines( ); }
-- 
2.43.0


From 5f368ed10f67cb877e1631308f8187a1b82ee830 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 116/166] fix: check the image size of OpenMTP files, and allow
 reading another one

---
 msat/openmtp/OpenMTP_image.cpp      | 28 +++++++++++++++++++---------
 msat/openmtp/OpenMTP_image.h        |  1 +
 msat/openmtp/OpenMTP_image_line.cpp |  2 ++
 msat/openmtp/OpenMTP_image_line.h   |  3 ++-
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index a794924..56f010c 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -31,32 +31,42 @@
 #include <cmath>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image.h"
 
-OpenMTP_image::OpenMTP_image( ) { image = 0; }
+OpenMTP_image::OpenMTP_image( ) : image(0), npixels(0), nlines(0) { }
 OpenMTP_image::OpenMTP_image( std::ifstream &file, OpenMTP_binary_header &h )
 {
   image = 0;
+  npixels = nlines = 0;
   read(file, h);
 }
-OpenMTP_image::~OpenMTP_image( ) { if (image) delete image; }
+OpenMTP_image::~OpenMTP_image( ) { delete[] image; }
 
 void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
 {
   float rad = 0.0;
   float cc, sc;
   
-  nlines = h.nlines( );
-  npixels = h.npixels( );
+  // The image is not valid until it has been read
+  nlines = npixels = 0;
+  delete[] image;
+  image = 0;
+
+  int nl = h.nlines( );
+  int np = h.npixels( );
+  if (nl < 0 || nl > MAX_LINES || np < 0 || np > OpenMTP_image_line::MAX_PIXELS)
+    throw std::runtime_error("invalid image size in OpenMTP file");
 
-  if (!image)
-    image = new unsigned char[nlines*npixels];
+  image = new unsigned char[nl*np];
 
-  for (int i = 0; i < nlines; i ++)
+  for (int i = 0; i < nl; i ++)
   {
-    line.read(file, npixels);
-    memcpy(image+i*npixels, line.linevals( ), npixels);
+    line.read(file, np);
+    memcpy(image+i*np, line.linevals( ), np);
   }
+  nlines = nl;
+  npixels = np;
 
   for (int i = 0; i < 256; i ++)
     calibration[i] = 1.0;
diff --git a/msat/openmtp/OpenMTP_image.h b/msat/openmtp/OpenMTP_image.h
index 2962778..adab4b5 100644
--- a/msat/openmtp/OpenMTP_image.h
+++ b/msat/openmtp/OpenMTP_image.h
@@ -62,6 +62,7 @@ class OpenMTP_image {
     unsigned char *image;
     float calibration[256];
   private:
+    const static int MAX_LINES = 5000;
     OpenMTP_image_line line;
     int npixels;
     int nlines;
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 0bfcb37..36406f8 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -42,6 +42,8 @@ OpenMTP_image_line::~OpenMTP_image_line( ) { }
 
 void OpenMTP_image_line::read( std::ifstream &file, int npixels)
 {
+  if (npixels < 0 || npixels > MAX_PIXELS)
+    throw std::runtime_error("invalid line length in OpenMTP file");
   npix = npixels;
   file.read((char *) line, npixels+32);
   if (file.fail( ))
diff --git a/msat/openmtp/OpenMTP_image_line.h b/msat/openmtp/OpenMTP_image_line.h
index 5438d35..28571c8 100644
--- a/msat/openmtp/OpenMTP_image_line.h
+++ b/msat/openmtp/OpenMTP_image_line.h
@@ -39,6 +39,8 @@ class OpenMTP_image_line {
     OpenMTP_image_line( std::ifstream &file, int npixels );
     ~OpenMTP_image_line( );
 
+    const static int MAX_PIXELS = 5000;
+
     void read( std::ifstream &file, int npixels);
 
     int slot_number( );
@@ -61,7 +63,6 @@ class OpenMTP_image_line {
 
   private:
     int npix;
-    const static int MAX_PIXELS = 5000;
     const static int BUFLEN = 5032;
     unsigned char line[BUFLEN];
     OpenMTP_machine m;
-- 
2.43.0


From 0160b762609ed4f74ae95e950868073f586df1b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 117/166] fix: do not overwrite the file given to --copymd

---
 msat/gdal/gdaltranslate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 5c11e7d..450890e 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -358,6 +358,9 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
     poVDS = (VRTDataset *) VRTCreate( nOXSize, nOYSize );
 
+    // It only exists in memory: never save it in the file its description names
+    poVDS->SetWritable( FALSE );
+
     if( nGCPCount == 0 )
     {
         if( pszOutputSRS != NULL )
-- 
2.43.0


From 304b189f12f9b3d11d6929e2e667550bc1713745 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 118/166] fix: exit with an error when the output of msat
 cannot be written

---
 tools/msat.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9198d98..1c32a2f 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -753,7 +753,14 @@ int Msat::main()
                                     cerr << CPLGetLastErrorMsg() << endl;
                                     return 1;
                             }
+                            // Data may get written as late as when closing
+                            CPLErrorReset();
                             GDALClose(outds);
+                            if (CPLGetLastErrorType() >= CE_Failure)
+                            {
+                                    cerr << CPLGetLastErrorMsg() << endl;
+                                    return 1;
+                            }
                             break;
                     }
 #ifdef HAVE_MAGICKPP
@@ -797,6 +804,13 @@ int Msat::main()
             if (vds != dataset.get())
                     GDALClose( (GDALDatasetH) vds );
     }
+
+    cout.flush();
+    if (!cout)
+    {
+            cerr << "cannot write to standard output" << endl;
+            return 1;
+    }
     return 0;
 }
 
-- 
2.43.0


From ae0117bd25f23ba3a55100db6608a2a434f1e3f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 119/166] fix: report images that cannot be read instead of
 crashing

---
 tools/image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/image.cpp b/tools/image.cpp
index 4a0e0b9..2dbb1f1 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -157,6 +157,8 @@ bool export_image(GDALRasterBand* band, const std::string& fileName, Stretch& s)
 
     unique_ptr<Magick::Image> image = imageToMagick(*band, s);
 
+    if (image.get() == 0) return false;
+
     // p.activity("Writing image to file");
     image->write(fileName);
     return true;
-- 
2.43.0


From e26e729f3af263ce2dbd24758dc9d472df557d69 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 120/166] fix: keep the output of msat in the current directory

---
 tools/msat.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 1c32a2f..a9a53a9 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -279,6 +279,12 @@ static std::string output_file_name(GDALDataset* ds, GDALRasterBand* rb = NULL)
                 res += channel_name + "_";
         }
         res += time;
+
+        // It is the name of a file in the current directory, whatever the
+        // metadata contain
+        for (char& c: res)
+                if (c == '/')
+                        c = '_';
         return res;
 }
 
-- 
2.43.0


From 8f8efa344c19448786359f3acbd168b66a63669e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 121/166] fix: do not take huge band numbers for others

---
 tools/msat.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index a9a53a9..bfd0cb7 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -607,8 +607,9 @@ int Msat::main()
                     unsigned long int idx = strtoul(sptr, &endptr, 10);
                     if (endptr - sptr == (signed)bi->size())
                     {
-                        // If it is an integer, use it literally
-                        bands[band_count++] = idx;
+                        // If it is an integer, use it literally (numbers too
+                        // big for a band get refused, like 0)
+                        bands[band_count++] = idx <= INT_MAX ? (int)idx : 0;
                     } else {
                         // If it is a string, remove leading bang (if any)
                         // and lookup in raster band descriptions
-- 
2.43.0


From eee6da03c5f3a3a637befed0301ae61511c3bbbc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 122/166] fix: do not let NaNs spoil the images of msat

---
 tools/image.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 2dbb1f1..f93f750 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -25,11 +25,14 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
   // Compute min and max values
   vmin = missing;
   vmax = missing;
+  bool found = false;
   for (size_t i = 0; i < sx*sy; ++i)
   {
-    if (vals[i] == missing) continue;
-    if (vmin == missing)
+    // NaNs are not values, and can also be what stands for missing ones
+    if (vals[i] == missing || vals[i] != vals[i]) continue;
+    if (!found)
     {
+      found = true;
       // First time we find a good value, init min and max with it
       vmin = vmax = vals[i];
       continue;
@@ -54,7 +57,7 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
   {
       for (size_t i = 0; i < sx * sy; ++i)
       {
-        if (vals[i] < vmin)
+        if (!(vals[i] >= vmin))
           res8[i] = 0;
         else if (vals[i] > vmax)
           res8[i] = 255;
-- 
2.43.0


From 80b9b79da4ee9afac84aeae32d8222f0f75cb5ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 123/166] fix: do not give crops and resized images the
 statistics of the whole image

---
 msat/gdal/gdaltranslate.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 450890e..697cf8a 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -560,6 +560,20 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /*      copy over some other information of interest.                   */
 /* -------------------------------------------------------------------- */
             poVRTBand->CopyCommonInfoFrom( poSrcBand );
+
+            // Statistics of the whole source are not those of a part of it
+            if( anSrcWin[0] != 0 || anSrcWin[1] != 0
+                || anSrcWin[2] != GDALGetRasterXSize(hDataset)
+                || anSrcWin[3] != GDALGetRasterYSize(hDataset)
+                || pszOXSize != NULL || pszOYSize != NULL )
+            {
+                char **papszMD = NULL;
+                for( char **s = poSrcBand->GetMetadata(); s && *s; ++s )
+                    if( !STARTS_WITH_CI( *s, "STATISTICS_" ) )
+                        papszMD = CSLAddString( papszMD, *s );
+                poVRTBand->SetMetadata( papszMD );
+                CSLDestroy( papszMD );
+            }
         }
 
 /* -------------------------------------------------------------------- */
-- 
2.43.0


From cb053bea94cb34b26d5a3634f43719d1416dc4e9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 124/166] fix: notice failures while msat writes the output of
 a conversion

---
 tools/msat.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index bfd0cb7..e36a0b1 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -558,6 +558,14 @@ void Msat::parse_cmdline(int argc, char* argv[])
 }
 
 namespace {
+// GDAL error handler that notes failures besides reporting them
+void note_failures(CPLErr eclass, CPLErrorNum num, const char* msg)
+{
+    if (eclass >= CE_Failure)
+        *(bool*)CPLGetErrorHandlerUserData() = true;
+    CPLCallPreviousHandler(eclass, num, msg);
+}
+
 int rbindex_by_name(GDALDataset& ds, const std::string& name)
 {
     // Copy raster band metadata from mdds to vds
@@ -752,20 +760,25 @@ int Msat::main()
                                     fname += ".";
                                     fname += ext;
                             }
+                            // Drivers may return a dataset even if they could
+                            // not write some of its data
+                            bool failed = false;
+                            CPLPushErrorHandlerEx(note_failures, &failed);
                             GDALDatasetH outds = GDALCreateCopy(driver, fname.c_str(), vds,
                                             TRUE, NULL,
                                             GDALDummyProgress, NULL);
                             if (outds == NULL)
                             {
+                                    CPLPopErrorHandler();
                                     cerr << CPLGetLastErrorMsg() << endl;
                                     return 1;
                             }
                             // Data may get written as late as when closing
-                            CPLErrorReset();
                             GDALClose(outds);
-                            if (CPLGetLastErrorType() >= CE_Failure)
+                            CPLPopErrorHandler();
+                            if (failed)
                             {
-                                    cerr << CPLGetLastErrorMsg() << endl;
+                                    cerr << "cannot write all of " << fname << endl;
                                     return 1;
                             }
                             break;
-- 
2.43.0


From 740282d95f3cac9e2ba8ca323e2a15a1e7d75b90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 125/166] fix: report errors from XRIT2Image instead of dying
 of them

---
 tools/hrit/XRIT2Image.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6aa8588..0e63a3a 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -47,7 +47,7 @@
 void usage(char *pname);
 std::string underscoreit(std::string base, int final_len);
 
-int main(int argc, char *argv[ ])
+static int convert(int argc, char *argv[ ])
 {
   char *directory = NULL;
   char *overlay_image = NULL;
@@ -246,7 +246,11 @@ int main(int argc, char *argv[ ])
     image->scale(geom);
   }
 
-  image->write(filename);
+  try {
+    image->write(filename);
+  } catch (Magick::Warning &e) {
+    std::cerr << filename << ": " << e.what( ) << std::endl;
+  }
 
   delete image;
 
@@ -257,6 +261,16 @@ int main(int argc, char *argv[ ])
   return 0;
 }
 
+int main(int argc, char *argv[ ])
+{
+  try {
+    return convert(argc, argv);
+  } catch (std::exception &e) {
+    std::cerr << argv[0] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
+}
+
 void usage(char *pname)
 {
   std::cout << pname << ": Convert HRIT/LRIT files to pgm format." << std::endl;
-- 
2.43.0


From 1ab76f381b039102624165c683a6da42cae83998 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 126/166] fix: do not put together segments that do not match
 in XRIT2Image

---
 tools/hrit/XRIT2Image.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 0e63a3a..0506a61 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -179,6 +179,12 @@ static int convert(int argc, char *argv[ ])
       return 1;
     }
     header[i].read_from(hrit);
+    if (! header[i].segment_id || ! header[i].image_structure)
+    {
+      std::cerr << globbuf.gl_pathv[i+1] << " is not an image segment"
+                << std::endl;
+      return 1;
+    }
     msgdat[i].read_from(hrit, header[i]);
     hrit.close( );
     std::cout << header[i];
@@ -193,6 +199,23 @@ static int convert(int argc, char *argv[ ])
   }
 
   int totalsegs = header[0].segment_id->planned_end_segment_sequence_number;
+  int npix = header[0].image_structure->number_of_columns;
+  int nlin = header[0].image_structure->number_of_lines;
+  size_t npixperseg = (size_t) npix*nlin;
+
+  // All the segments need to be pieces of the same image
+  for (int i = 0; i < nsegments; i ++)
+    if (header[i].segment_id->sequence_number < 1 ||
+        header[i].segment_id->sequence_number > totalsegs ||
+        header[i].image_structure->number_of_columns != npix ||
+        header[i].image_structure->number_of_lines != nlin ||
+        ! msgdat[i].image || msgdat[i].image->len < npixperseg)
+    {
+      std::cerr << "Segment " << header[i].segment_id->sequence_number
+                << " does not match the others." << std::endl;
+      return 1;
+    }
+
   int *segsindexes = new int[totalsegs]; 
 
   for (int i = 0; i < totalsegs; i ++)
@@ -209,10 +232,6 @@ static int convert(int argc, char *argv[ ])
   else
     filename = filename + ".jpg";
 
-  int npix = header[0].image_structure->number_of_columns;
-  int nlin = header[0].image_structure->number_of_lines;
-  size_t npixperseg = npix*nlin;
-
   size_t total_size = totalsegs*npixperseg;
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
   memset(pixels, 0, total_size*sizeof(MSG_SAMPLE));
-- 
2.43.0


From e8f5f48307c66f7a10abd11ea186179e28d425fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 127/166] fix: exit with an error for options XRIT2Image does
 not know

---
 tools/hrit/XRIT2Image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 0506a61..530206b 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -120,11 +120,14 @@ static int convert(int argc, char *argv[ ])
       case 'V':
        std::cout << pname << " " << PACKAGE_STRING << std::endl;
        return 0;
-      case '?':
       case 'h':
        usage(pname);
        return(0);
        break;
+      case '?':
+       usage(pname);
+       return(1);
+       break;
       default:
        std::cerr << "?? getopt returned character code"
                  << std::oct << c << "??" << std::endl;
-- 
2.43.0


From 8af68bfc37809f838bcbf4ef1632159a51c54ca8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 128/166] fix: notice failures to write what the dump tools
 print

---
 tools/hrit/XRIT2Image.cpp       | 5 +++++
 tools/hrit/xritdump.cpp         | 6 ++++++
 tools/msg-native/nativedump.cpp | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 530206b..0109875 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -280,6 +280,11 @@ static int convert(int argc, char *argv[ ])
   delete [ ] header;
   delete [ ] msgdat;
   delete [ ] segsindexes;
+  if (! std::cout.flush( ))
+  {
+    std::cerr << "Cannot write the segment headers." << std::endl;
+    return 1;
+  }
   return 0;
 }
 
diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index b73352e..0dc01b0 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -217,6 +217,12 @@ int main( int argc, char* argv[] )
                 return 1;
         }
 
+        if (!cout.flush())
+        {
+                cerr << "cannot write the output" << endl;
+                return 1;
+        }
+
         return 0;
 }
 
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 9977b21..834d72f 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -41,5 +41,9 @@ int main(int argc, char **argv)
   std::cout << native;
 
   native.close( );
+  if (! std::cout.flush( )) {
+    std::cerr << argv[1] << ": cannot write the output" << std::endl;
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From f16d48653d881acce75923ce2f960e9fa56e0f7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 129/166] fix: put HRV lines at their place in the composite of
 xritdump

---
 tools/hrit/xritdump.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index 0dc01b0..6c3aafa 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -144,7 +144,9 @@ static void do_dump(const char* name)
                 size_t py = y * comp_sy / chary;
                 MSG_SAMPLE buf[comp_sx];
                 bzero(buf, comp_sx * sizeof(MSG_SAMPLE));
-                da.line_read(py, buf);
+                size_t start = da.line_start(py);
+                if (start + da.columns <= comp_sx)
+                        da.line_read(py, buf + start);
                 for (size_t x = 0; x < charx; ++x)
                 {
                         size_t px = x * comp_sx / charx;
-- 
2.43.0


From 5400ee7096d8caf710b9db9559766fe746b27a8f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 130/166] fix: exit with an error if XRIT2Image cannot make an
 image of a product

---
 tools/hrit/XRIT2Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 0109875..4c526a9 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -197,8 +197,8 @@ static int convert(int argc, char *argv[ ])
 
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
-    std::cout << "Product dumped in binary format." << std::endl;
-    return 0;
+    std::cerr << "Product dumped in binary format." << std::endl;
+    return 1;
   }
 
   int totalsegs = header[0].segment_id->planned_end_segment_sequence_number;
-- 
2.43.0


From 155656c7fa31921549e6f965673412cde746e1cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 131/166] fix: do not give calibrated images the statistics of
 the counts

---
 msat/gdal/dataset.cpp | 18 ++++++++++++++++++
 msat/gdal/dataset.h   |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 81fe215..c521c0c 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -375,6 +375,24 @@ CalibratedRasterBand::CalibratedRasterBand(GDALDataset& ds, GDALRasterBand& rb,
     scale = rb.GetScale();
 }
 
+char** CalibratedRasterBand::GetMetadata(const char *pszDomain)
+{
+    char** res = ProxyRasterBand::GetMetadata(pszDomain);
+    if (pszDomain && *pszDomain) return res;
+    metadata.Clear();
+    for (char** s = res; s && *s; ++s)
+        if (!STARTS_WITH_CI(*s, "STATISTICS_"))
+            metadata.AddString(*s);
+    return metadata.List();
+}
+
+const char* CalibratedRasterBand::GetMetadataItem(const char *pszName, const char *pszDomain)
+{
+    if ((!pszDomain || !*pszDomain) && STARTS_WITH_CI(pszName, "STATISTICS_"))
+        return NULL;
+    return ProxyRasterBand::GetMetadataItem(pszName, pszDomain);
+}
+
 double CalibratedRasterBand::GetMinimum(int *pbSuccess)
 {
     double res = rb.GetMinimum(pbSuccess);
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index 10eae01..afd7f92 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -173,9 +173,14 @@ struct CalibratedRasterBand : public ProxyRasterBand
 {
     double ofs;
     double scale;
+    CPLStringList metadata;
 
     CalibratedRasterBand(GDALDataset& ds, GDALRasterBand& rb, int idx);
 
+    // The statistics of the source are those of the uncalibrated values
+    char** GetMetadata(const char *pszDomain="") override;
+    const char* GetMetadataItem(const char *pszName, const char *pszDomain="") override;
+
     double GetMinimum(int *pbSuccess=NULL) override;
     double GetMaximum(int *pbSuccess=NULL) override;
     double GetOffset(int *pbSuccess=NULL) override;
-- 
2.43.0


From 6b1bb927f3c711f629b24da8aeb12f2fd8e8551f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 132/166] fix: refuse channels and scales that are no numbers
 in native2Image

---
 tools/msg-native/native2Image.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index a582083..3e4a91f 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -23,6 +23,7 @@
 //---------------------------------------------------------------------------
 #include <iostream>
 #include <fstream>
+#include <cstdlib>
 #include <cstring>
 #include <string>
 #include <msat/msg-native/MSG_native.h>
@@ -63,9 +64,18 @@ int main(int argc, char **argv)
     return -1;
   }
 
-  int ichn = atoi(argv[2]);
+  char *chnend, *scaleend;
+  long nchn = strtol(argv[2], &chnend, 10);
+  int ichn = nchn < 0 || nchn > 11 ? -1 : (int) nchn;
   format = argv[3];
-  gfactor = atof(argv[4]);
+  gfactor = strtod(argv[4], &scaleend);
+  if (chnend == argv[2] || *chnend || scaleend == argv[4] || *scaleend ||
+      ! (gfactor > 0))
+  {
+    std::cerr << "Channel " << argv[2] << " and scale " << argv[4]
+              << " need to be numbers, the scale above 0." << std::endl;
+    return -1;
+  }
 
   if (! native.open(argv[1]))
   {
-- 
2.43.0


From 2a2c04f95f8de70691b03bc1ad3e20f7dcd2f9f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 133/166] fix: refuse scales that are no numbers in XRIT2Image

---
 tools/hrit/XRIT2Image.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 4c526a9..c940971 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -105,7 +105,15 @@ static int convert(int argc, char *argv[ ])
        format = strdup(optarg);
        break;
       case 'g':
-       geometry = strtod(optarg, (char **)NULL);
+       {
+         char *end;
+         geometry = strtod(optarg, &end);
+         if (end == optarg || *end || ! (geometry > 0))
+         {
+           std::cerr << "The scale needs to be a number above 0." << std::endl;
+           return 1;
+         }
+       }
        break;
       case 'o':
        do_overlay = true;
-- 
2.43.0


From ed512dd9cac5fd2b3be09e48d0d99627110e1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 134/166] fix: do not rewrite the byte order of the machine
 with every header read

Threads reading files at the same time wrote it while others were using it.
---
 msat/hrit/MSG_machine.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/msat/hrit/MSG_machine.cpp b/msat/hrit/MSG_machine.cpp
index b31a1e9..5665046 100644
--- a/msat/hrit/MSG_machine.cpp
+++ b/msat/hrit/MSG_machine.cpp
@@ -30,9 +30,7 @@
 #include <cstring>
 #include <msat/hrit/MSG_machine.h>
 
-static bool isbig = false;
-
-void check_endianess()
+static bool detect_endianess()
 {
   union {
     unsigned char_1 byte[4];
@@ -40,10 +38,14 @@ void check_endianess()
   } word;
   word.val = 0;
   word.byte[3] = 0x1;
-  if (word.val != 1)
-    isbig = false;
-  else
-    isbig = true;
+  return word.val == 1;
+}
+
+// Never written afterwards: every thread reads it
+static const bool isbig = detect_endianess();
+
+void check_endianess()
+{
 }
 
 bool is_big( )
-- 
2.43.0


From 5ab3c7abea1e9161faf773868a839e0a54800522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 135/166] fix: let threads read HRI files at the same time

The lines of all images went through one buffer.
---
 msat/hri/HRI.cpp                         |  4 ++--
 msat/hri/HRI_subframe_identification.cpp | 15 ++++++++-------
 msat/hri/HRI_subframe_keyslot.cpp        |  2 +-
 msat/hri/HRI_subframe_label.cpp          |  2 +-
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 37b4165..e46da49 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -439,7 +439,7 @@ char *Hri::get_area_name( )
 
 unsigned char * Hri::get_dataline( ifstream &hri, int format )
 {
-  static unsigned char linebuff[2500];
+  static thread_local unsigned char linebuff[2500];
 
   if (format == HRI_A_FORMAT)
   {
@@ -481,7 +481,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
 
 unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
 {
-  static unsigned char linebuff[2500];
+  static thread_local unsigned char linebuff[2500];
 
   if (format == HRI_A_FORMAT)
   {
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 41db13d..d16976f 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -39,7 +39,7 @@ HRI_subframe_identification::HRI_subframe_identification( char *hsi )
 
 void HRI_subframe_identification::readfrom( char *hsi )
 {
-  struct tm *tm1time;
+  struct tm tm1time;
   time_t jtime;
 
   memcpy(satellite_indicator, hsi, 2);
@@ -85,11 +85,11 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_mday = 1;
   tmtime.tm_hour = 12;
   jtime = timegm(&tmtime) + (time_t) (julian_day - 1) * 24 * 60 * 60;
-  tm1time = gmtime(&jtime);
-  month = tm1time->tm_mon + 1;
-  day   = tm1time->tm_mday;
-  int wday = tm1time->tm_wday;
-  int yday = tm1time->tm_yday;
+  gmtime_r(&jtime, &tm1time);
+  month = tm1time.tm_mon + 1;
+  day   = tm1time.tm_mday;
+  int wday = tm1time.tm_wday;
+  int yday = tm1time.tm_yday;
 
   nominal_time = conv.i2_from_buff((const unsigned char *) hsi+6);
   hour = nominal_time / 100;
@@ -104,7 +104,8 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_wday = wday;
   tmtime.tm_yday = yday;
 
-  datetime = asctime(&tmtime);
+  char asc[32];
+  datetime = asctime_r(&tmtime, asc) ? asc : "";
 
   column_offset = conv.i2_from_buff((const unsigned char *) hsi+20);
   line_offset   = conv.i2_from_buff((const unsigned char *) hsi+22);
diff --git a/msat/hri/HRI_subframe_keyslot.cpp b/msat/hri/HRI_subframe_keyslot.cpp
index 63bc63c..40fc0b4 100644
--- a/msat/hri/HRI_subframe_keyslot.cpp
+++ b/msat/hri/HRI_subframe_keyslot.cpp
@@ -77,7 +77,7 @@ HRI_keyslot & HRI_subframe_keyslot::get_key(short int station_number,
 	keys[i].key_number == keynum)
       return keys[i];
   }
-  static HRI_keyslot none;
+  static thread_local HRI_keyslot none;
   memset(&none, 0, sizeof(HRI_keyslot));
   return none;
 }
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 9744727..c8cca39 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -196,7 +196,7 @@ bool HRI_subframe_label::is_grid_present( )
 
 std::string HRI_subframe_label::format_code( )
 {
-  static std::string tmp;
+  std::string tmp;
   bool hasv = false;
 
   if      (is_A_format( )) tmp = "A";
-- 
2.43.0


From 060ea746a59bf5d36d1274bc94e01e60003cd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 136/166] fix: let threads read OpenMTP files at the same time

The texts and tables of all headers went through the same buffers, some of
them already while reading.
---
 msat/openmtp/OpenMTP.cpp               |  8 ++--
 msat/openmtp/OpenMTP_binary_header.cpp | 58 +++++++++++++-------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index c0f642e..6f093f6 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -62,7 +62,7 @@ void OpenMTP::read( std::ifstream &file )
 
 struct tm &OpenMTP::get_datetime( )
 {
-  static struct tm itm;
+  static thread_local struct tm itm;
   int tmp;
 
   itm.tm_year = binary_header.year( ) - 1900;
@@ -80,7 +80,7 @@ struct tm &OpenMTP::get_datetime( )
 char * OpenMTP::get_datatimestr( )
 {
   struct tm itm = get_datetime( );
-  static char tmp[32];
+  static thread_local char tmp[32];
   strftime(tmp, 32, "%Y-%m-%d %H:%M:%S %Z", &itm);
   return tmp;
 }
@@ -99,7 +99,7 @@ char * OpenMTP::get_satellite_name( )
 
 char * OpenMTP::get_timestr( )
 {
-  static char timestr[14];
+  static thread_local char timestr[14];
   int tmp;
   tmp = binary_header.date( );
   tmp = tmp-((tmp/10000)*10000);
@@ -175,7 +175,7 @@ const char *OpenMTP::get_chunit( )
 
 const char *OpenMTP::get_field_name( )
 {
-  static char tmp[32];
+  static thread_local char tmp[32];
   strncpy(tmp, binary_header.field_name( )+1, 32);
   return tmp;
 }
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 099b7b6..23a17de 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -100,7 +100,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
 
 char *OpenMTP_binary_header::field_name ( )
 {
-  static char tmp[9];
+  static thread_local char tmp[9];
   memcpy(tmp, header, 8);
   tmp[8] = 0;
   return tmp;
@@ -108,7 +108,7 @@ char *OpenMTP_binary_header::field_name ( )
 
 char *OpenMTP_binary_header::satellite_name ( )
 {
-  static char tmp[3];
+  static thread_local char tmp[3];
   memcpy(tmp, header+32, 2);
   tmp[2] = 0;
   return tmp;
@@ -116,7 +116,7 @@ char *OpenMTP_binary_header::satellite_name ( )
 
 char *OpenMTP_binary_header::rectification_method_name ( )
 {
-  static char tmp[16];
+  static thread_local char tmp[16];
   memcpy(tmp, header+72, 15);
   tmp[15] = 0;
   return tmp;
@@ -124,7 +124,7 @@ char *OpenMTP_binary_header::rectification_method_name ( )
 
 char *OpenMTP_binary_header::phenomena_index ( )
 {
-  static char tmp[9];
+  static thread_local char tmp[9];
   memcpy(tmp, header+115, 8);
   tmp[8] = 0;
   return tmp;
@@ -376,14 +376,14 @@ bool OpenMTP_binary_header::is_image_HR_not_interpreted( )
 }
 char *OpenMTP_binary_header::missing_line_table( )
 {
-  static char tmp[2501];
+  static thread_local char tmp[2501];
   memcpy(tmp, header+155, 2500);
   tmp[2500] = 0;
   return tmp;
 }
 char *OpenMTP_binary_header::missing_line_table_VISn( )
 {
-  static char tmp[2501];
+  static thread_local char tmp[2501];
   memcpy(tmp, header+2655, 2500);
   tmp[2500] = 0;
   return tmp;
@@ -450,7 +450,7 @@ short OpenMTP_binary_header::urect_number_of_received_subimage( )
 }
 short *OpenMTP_binary_header::urect_first_line_in_subimage( )
 {
-  static short tmp[20];
+  static thread_local short tmp[20];
 
   for (int i = 0; i < 20; i ++)
     tmp[i] = m.int2(header+5199+2*i);
@@ -458,7 +458,7 @@ short *OpenMTP_binary_header::urect_first_line_in_subimage( )
 }
 short *OpenMTP_binary_header::urect_nlines_in_subimage( )
 {
-  static short tmp[20];
+  static thread_local short tmp[20];
 
   for (int i = 0; i < 20; i ++)
     tmp[i] = m.int2(header+5239+2*i);
@@ -466,7 +466,7 @@ short *OpenMTP_binary_header::urect_nlines_in_subimage( )
 }
 short *OpenMTP_binary_header::urect_curr_decoded_rad_pos_of_first_line_in_subimage( )
 {
-  static short tmp[20];
+  static thread_local short tmp[20];
 
   for (int i = 0; i < 20; i ++)
     tmp[i] = m.int2(header+5279+2*i);
@@ -474,7 +474,7 @@ short *OpenMTP_binary_header::urect_curr_decoded_rad_pos_of_first_line_in_subima
 }
 int *OpenMTP_binary_header::urect_raw_image_histogram( )
 {
-  static int tmp[256];
+  static thread_local int tmp[256];
 
   for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+5319+4*i);
@@ -482,7 +482,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram( )
 }
 int *OpenMTP_binary_header::urect_raw_image_histogram_VISn( )
 {
-  static int tmp[256];
+  static thread_local int tmp[256];
 
   for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+6343+4*i);
@@ -498,21 +498,21 @@ double OpenMTP_binary_header::urec_end_image( )
 }
 double *OpenMTP_binary_header::urec_orbit_coord_in_geoframe_start( )
 {
-  static double tmp[6];
+  static thread_local double tmp[6];
   for (int i = 0; i < 6; i ++)
     tmp[i] = m.float8(header+7383+i*8);
   return tmp;
 }
 double *OpenMTP_binary_header::urec_orbit_coord_in_geoframe_end( )
 {
-  static double tmp[6];
+  static thread_local double tmp[6];
   for (int i = 0; i < 6; i ++)
     tmp[i] = m.float8(header+7431+i*8);
   return tmp;
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_start( )
 {
-  static float tmp[4];
+  static thread_local float tmp[4];
   tmp[0] = m.float4(header+7479);
   tmp[1] = m.float4(header+7479+4);
   tmp[2] = m.float4(header+7479+8);
@@ -521,7 +521,7 @@ float *OpenMTP_binary_header::urec_cartesian_attitude_start( )
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_end( )
 {
-  static float tmp[4];
+  static thread_local float tmp[4];
   tmp[0] = m.float4(header+7491);
   tmp[1] = m.float4(header+7491+4);
   tmp[2] = m.float4(header+7491+8);
@@ -530,7 +530,7 @@ float *OpenMTP_binary_header::urec_cartesian_attitude_end( )
 }
 short *OpenMTP_binary_header::urec_horizon_information( )
 {
-  static short tmp[12];
+  static thread_local short tmp[12];
   for (int i = 0; i < 12; i ++)
       tmp[i] = m.int2(header+7503+i*2);
   return tmp;
@@ -541,7 +541,7 @@ double OpenMTP_binary_header::urec_time_of_first_pixel( )
 }
 bool *OpenMTP_binary_header::urec_status_flags( )
 {
-  static bool tmp[16];
+  static thread_local bool tmp[16];
   for (int i = 0; i < 16; i ++)
     tmp[i] = *(header+7559+i);
   return tmp;
@@ -600,14 +600,14 @@ short OpenMTP_binary_header::urec_radiometer_step_offset_start( )
 }
 short *OpenMTP_binary_header::urec_horizon_limit_information( )
 {
-  static short tmp[12];
+  static thread_local short tmp[12];
   for (int i = 0; i < 12; i ++)
       tmp[i] = m.int2(header+7579+i*2);
   return tmp;
 }
 double *OpenMTP_binary_header::urec_times_of_horizon_scan_lines( )
 {
-  static double tmp[2];
+  static thread_local double tmp[2];
   tmp[0] = m.float8(header+7603);
   tmp[1] = m.float8(header+7603+8);
   return tmp;
@@ -718,7 +718,7 @@ int OpenMTP_binary_header::grid_deformation_step( )
 }
 float *OpenMTP_binary_header::deformation_matrix_x( )
 {
-  static float tmp[11025];
+  static thread_local float tmp[11025];
 
   for (int i = 0; i < 11025; i ++)
     tmp[i] = m.float4(header+7827+i*4);
@@ -726,7 +726,7 @@ float *OpenMTP_binary_header::deformation_matrix_x( )
 }
 float *OpenMTP_binary_header::deformation_matrix_y( )
 {
-  static float tmp[11025];
+  static thread_local float tmp[11025];
 
   for (int i = 0; i < 11025; i ++)
     tmp[i] = m.float4(header+51927+i*4);
@@ -742,7 +742,7 @@ int OpenMTP_binary_header::chid_first_corrected( )
 }
 float *OpenMTP_binary_header::line_geometric_correction_EW_1( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+96035+i*4);
@@ -750,7 +750,7 @@ float *OpenMTP_binary_header::line_geometric_correction_EW_1( )
 }
 float *OpenMTP_binary_header::line_geometric_correction_NS_1( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+108155+i*4);
@@ -758,7 +758,7 @@ float *OpenMTP_binary_header::line_geometric_correction_NS_1( )
 }
 float *OpenMTP_binary_header::line_radiometric_correction_offset_1( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+120275+i*4);
@@ -766,7 +766,7 @@ float *OpenMTP_binary_header::line_radiometric_correction_offset_1( )
 }
 float *OpenMTP_binary_header::line_radiometric_correction_gain_1( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+132395+i*4);
@@ -778,7 +778,7 @@ int OpenMTP_binary_header::chid_second_corrected( )
 }
 float *OpenMTP_binary_header::line_geometric_correction_EW_2( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+144519+i*4);
@@ -786,7 +786,7 @@ float *OpenMTP_binary_header::line_geometric_correction_EW_2( )
 }
 float *OpenMTP_binary_header::line_geometric_correction_NS_2( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+156639+i*4);
@@ -794,7 +794,7 @@ float *OpenMTP_binary_header::line_geometric_correction_NS_2( )
 }
 float *OpenMTP_binary_header::line_radiometric_correction_offset_2( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+168759+i*4);
@@ -802,7 +802,7 @@ float *OpenMTP_binary_header::line_radiometric_correction_offset_2( )
 }
 float *OpenMTP_binary_header::line_radiometric_correction_gain_2( )
 {
-  static float tmp[3030];
+  static thread_local float tmp[3030];
 
   for (int i = 0; i < 3030; i ++)
     tmp[i] = m.float4(header+180879+i*4);
-- 
2.43.0


From f72b13c2cc739751c13a3f1f10388d070024da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 137/166] fix: keep the size of the ThornSDS channel read apart
 from those asked about

has_channel changed what get_raw_data_size and get_raw_data_nvals say of
the channel in memory. Names are also put together without overflowing,
and the file is closed when it cannot be read.
---
 msat/thornsds_db1/thornsds_db1.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5aaec70..9c27d5e 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -26,6 +26,7 @@
 #include <cstring>
 #include <cstdio>
 #include <cmath>
+#include <string>
 #include <limits.h>
 #include <msat/iniparser.h>
 #include "thornsds_db1.h"
@@ -80,11 +81,8 @@ bool MSG_db1_data::has_channel(char *chname)
     std::cerr << "Source not opened." << std::endl;
     return false;
   }
-  char chfname[PATH_MAX];
-  sprintf(chfname, "%s/%s.RAW", dirname, chname);
-  if (stat(chfname, &chfstat) == 0)
-    return true;
-  return false;
+  struct stat st;
+  return stat((std::string(dirname) + "/" + chname + ".RAW").c_str(), &st) == 0;
 }
 
 void MSG_db1_data::set_channel(char *chname)
@@ -94,25 +92,31 @@ void MSG_db1_data::set_channel(char *chname)
     if (dirname)
       std::cerr << "Channel not present in " << dirname << std::endl;
   }
-  char iname[PATH_MAX];
-  sprintf(iname, "%s/%s.Calibration", dirname, chname);
-  Calibration = iniparser_new(iname);
+  std::string iname = std::string(dirname) + "/" + chname + ".Calibration";
+  Calibration = iniparser_new((char *) iname.c_str( ));
   if (Calibration == 0)
   {
     std::cerr << "No such file: " << iname << std::endl;
     std::cerr << "No Calibration performed for " << chname << std::endl;
   }
-  sprintf(iname, "%s/%s.RAW", dirname, chname);
-  FILE *fp = fopen(iname, "r");
+  iname = std::string(dirname) + "/" + chname + ".RAW";
+  FILE *fp = fopen(iname.c_str( ), "r");
   if (! fp)
   {
     std::cerr << "Cannot open file: " << iname << std::endl;
     return;
   }
-  rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
-  if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
+  if (fstat(fileno(fp), &chfstat) != 0 || ! S_ISREG(chfstat.st_mode))
+  {
+    std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
+    return;
+  }
+  rawdata = new unsigned short[(chfstat.st_size + 1) / sizeof(short)];
+  if (fread(rawdata, 1, chfstat.st_size, fp) != (size_t) chfstat.st_size)
   {
     std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
     return;
   }
   fclose(fp);
-- 
2.43.0


From dd4b37253a2da966e2f2f7da39f8a1d6542bd173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 138/166] fix: forget the former ThornSDS channel when another
 one is set

If the other one could not be read the data of the former one were given
for it, and if it could, they were never released.
---
 msat/thornsds_db1/thornsds_db1.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 9c27d5e..d43159b 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -87,10 +87,16 @@ bool MSG_db1_data::has_channel(char *chname)
 
 void MSG_db1_data::set_channel(char *chname)
 {
+  if (Calibration) { iniparser_free(Calibration); Calibration = 0; }
+  if (rawdata) { delete [ ] rawdata; rawdata = 0; }
+  if (cal_values) { delete [ ] cal_values; cal_values = 0; }
+  chnum = 0;
+  ncalval = -1;
   if (! this->has_channel(chname))
   {
     if (dirname)
       std::cerr << "Channel not present in " << dirname << std::endl;
+    return;
   }
   std::string iname = std::string(dirname) + "/" + chname + ".Calibration";
   Calibration = iniparser_new((char *) iname.c_str( ));
-- 
2.43.0


From e92973e99c2c63075048801f4280bffeb88bc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 139/166] fix: close a ThornSDS directory before opening
 another one

---
 msat/thornsds_db1/thornsds_db1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index d43159b..5cbfcd7 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -62,6 +62,7 @@ void MSG_db1_data::close( )
 void MSG_db1_data::open( char *directory )
 {
   char iname[PATH_MAX];
+  this->close( );
   this->dirname = strdup(directory);
   snprintf(iname, PATH_MAX, "%s/%s", directory, "AoI");
   AoI = iniparser_new(iname);
-- 
2.43.0


From 7909490811d28e175403ad2994c9be123641e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 140/166] fix: check the numbers of bits and the counts of
 ThornSDS channels

Pixels have 16 bits at most: with more the calibration table does not fit
in memory. Names of variables may have any length.
---
 msat/thornsds_db1/thornsds_db1.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5cbfcd7..3898ce3 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -128,7 +128,14 @@ void MSG_db1_data::set_channel(char *chname)
   }
   fclose(fp);
   this->chnum = get_channel_number(chname);
-  ncalval = (int) (pow(2.0, (double) get_INFO_image_bitsperpixel( )));
+  int bpp = get_INFO_image_bitsperpixel( );
+  if (bpp < 0 || bpp > 16)
+  {
+    std::cerr << "Wrong number of bits per pixel: " << bpp << std::endl;
+    this->chnum = 0;
+    return;
+  }
+  ncalval = 1 << bpp;
   cal_values = new float[ncalval];
 
   for (int i = 0; i < ncalval; i ++)
@@ -416,10 +423,11 @@ float MSG_db1_data::get_channel_Calibration_B( )
 float MSG_db1_data::get_channel_Calibration_value_calibrated( int count )
 {
   if (! is_data_ok( )) return 0;
-  if (count < 0 && count >= ncalval) return 0.0;
-  snprintf(infochuse, INFOCHLEN, "%s:%s(%d)", get_channel_INFO_variable( ),
-           get_channel_INFO_variable_code( ), count);
-  return (float) iniparser_getdouble(Calibration, infochuse, 0.0);
+  if (count < 0 || count >= ncalval) return 0.0;
+  std::string key = std::string(get_channel_INFO_variable( )) + ":"
+                  + get_channel_INFO_variable_code( )
+                  + "(" + std::to_string(count) + ")";
+  return (float) iniparser_getdouble(Calibration, (char *) key.c_str( ), 0.0);
 }
 
 unsigned short *MSG_db1_data::get_RAW_data( )
-- 
2.43.0


From 0044735d003454ca7ea3e725c6e166c9e65cdb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 141/166] fix: do not print texts of ThornSDS channels that
 could not be read

---
 msat/thornsds_db1/thornsds_db1.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 3898ce3..44cd850 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -462,6 +462,8 @@ int MSG_db1_data::get_raw_data_nvals( )
 
 std::ostream& operator<< ( std::ostream& os, MSG_db1_data &d )
 {
+  if (! d.is_data_ok( ))
+    return os << "No channel data" << std::endl;
   os << "------------------------------------------------------" << std::endl
      << "-           MSG DATA SATELLITE DB1 AoI               -" << std::endl
      << "------------------------------------------------------" << std::endl;
-- 
2.43.0


From de245713d18ef1d9eb8509a9322c69221d2f09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 142/166] fix: overlay the given image in db1_to_image

---
 tools/thornsds_db1/db1_to_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 720a081..2aa556e 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -102,7 +102,7 @@ int main (int argc, char *argv[])
   if (image_overlay)
   {
     Magick::Image overlay;
-    overlay.read("SEVIRI_OVERLAY.pgm");
+    overlay.read(image_overlay);
     image->composite(overlay, 0, 0, Magick::PlusCompositeOp);
   }
 
-- 
2.43.0


From e5ad9b27c15c50103ddbdfeef400674168be29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 143/166] fix: check in db1_to_image that the data has the
 pixels of the image

---
 tools/thornsds_db1/db1_to_image.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 2aa556e..d7f6773 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -80,6 +80,16 @@ int main (int argc, char *argv[])
     return -1;
   }
 
+  int pixels = db1.get_INFO_image_pixels( );
+  int lines = db1.get_INFO_image_lines( );
+  if (pixels <= 0 || lines <= 0 ||
+      (long) pixels * lines > db1.get_raw_data_nvals( ))
+  {
+    std::cerr << "Exit: there are not " << pixels << " x " << lines
+              << " pixels of data." << std::endl;
+    return -1;
+  }
+
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s_%s_%s.%s", db1.get_INFO_satellite_name( ),
            db1.get_channel_INFO_name( ),
@@ -91,8 +101,7 @@ int main (int argc, char *argv[])
     if (outname[i] == ':') outname[i] = '-';
   }
 
-  Magick::Image *image = new Magick::Image(db1.get_INFO_image_pixels( ),
-                                           db1.get_INFO_image_lines( ),
+  Magick::Image *image = new Magick::Image(pixels, lines,
                                            "I", Magick::ShortPixel,
                                            db1.get_RAW_data( ));
   image->normalize( );
-- 
2.43.0


From 1addd9de2be98149873f063f1761d35927a4846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 144/166] fix: report what db1_to_image cannot do instead of
 dying of it

---
 tools/thornsds_db1/db1_to_image.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index d7f6773..979c549 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -60,7 +60,14 @@ int main (int argc, char *argv[])
   }
 
   format = strdup(argv[3]);
-  gfactor = atof(argv[4]);
+  char *scaleend;
+  gfactor = strtod(argv[4], &scaleend);
+  if (scaleend == argv[4] || *scaleend || ! (gfactor > 0))
+  {
+    std::cerr << "Scale " << argv[4] << " needs to be a number above 0."
+              << std::endl;
+    return -1;
+  }
 
   if (argc > 5)
     image_overlay = strdup(argv[5]);
@@ -101,6 +108,7 @@ int main (int argc, char *argv[])
     if (outname[i] == ':') outname[i] = '-';
   }
 
+  try {
   Magick::Image *image = new Magick::Image(pixels, lines,
                                            "I", Magick::ShortPixel,
                                            db1.get_RAW_data( ));
@@ -120,6 +128,11 @@ int main (int argc, char *argv[])
   image->scale(geom);
 
   image->write(outname);
+  delete image;
+  } catch (std::exception &e) {
+    std::cerr << outname << ": " << e.what( ) << std::endl;
+    return -1;
+  }
 
   db1.close( );
   return 0;
-- 
2.43.0


From 8d6c64484a9c519a5bd2179e1db69b6f3bcac7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 145/166] fix: take the bands after an expanded one from the
 list, not from past its end

---
 msat/gdal/gdaltranslate.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 697cf8a..f9d40cb 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -462,13 +462,14 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             poVDS->SetMetadata( papszMD, "RPC" );
     }
 
+    int nOutBandCount = nBandCount;
     if (nRGBExpand != 0)
-        nBandCount += nRGBExpand - 1;
+        nOutBandCount += nRGBExpand - 1;
 
 /* ==================================================================== */
 /*      Process all bands.                                              */
 /* ==================================================================== */
-    for( i = 0; i < nBandCount; i++ )
+    for( i = 0; i < nOutBandCount; i++ )
     {
         VRTSourcedRasterBand   *poVRTBand;
         GDALRasterBand  *poSrcBand;
@@ -487,7 +488,7 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
         }
         else
             poSrcBand = ((GDALDataset *) 
-                        hDataset)->GetRasterBand(panBandList[i]);
+                        hDataset)->GetRasterBand(panBandList[nRGBExpand != 0 ? i - nRGBExpand + 1 : i]);
 
 /* -------------------------------------------------------------------- */
 /*      Select output data type to match source.                        */
-- 
2.43.0


From 96d676f4f9f66e50b2e4fbf46bc349957506c954 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 146/166] fix: keep the metadata options and control points of
 GDALTranslate until it is destroyed

---
 msat/gdal/gdaltranslate.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index f9d40cb..4f04cc0 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -101,6 +101,12 @@ GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
     CSLDestroy( papszCreateOptions );
+    CSLDestroy( papszMetadataOptions );
+    if( pasGCPs != NULL )
+    {
+        GDALDeinitGCPs( nGCPCount, pasGCPs );
+        CPLFree( pasGCPs );
+    }
 }
 
 /************************************************************************/
@@ -413,9 +419,6 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             pszGCPProjection = "";
 
         poVDS->SetGCPs( nGCPCount, pasGCPs, pszGCPProjection );
-
-        GDALDeinitGCPs( nGCPCount, pasGCPs );
-        CPLFree( pasGCPs );
     }
 
     else if( GDALGetGCPCount( hDataset ) > 0 )
@@ -615,8 +618,6 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
         GDALSetMetadataItem(hDS,pszKey,pszValue,NULL);
         CPLFree( pszKey );
     }
-
-    CSLDestroy( papszMetadataOptions );
 }
 
 void GDALTranslate::dump(std::ostream& out)
-- 
2.43.0


From 648b9c4916af7c53803f3bae9489be7ad0cd11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 147/166] fix: keep missing values missing when scaling, and
 drop the scale and statistics of the source

---
 msat/gdal/gdaltranslate.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 4f04cc0..9fa0099 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -538,12 +538,22 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
         if( bScale || (nRGBExpand != 0 && i < nRGBExpand) )
         {
+            // Missing values are not scaled: they stay missing
+            double dfNoData = VRT_NODATA_UNSET;
+            if( nRGBExpand == 0 || i >= nRGBExpand )
+            {
+                int bHasNoData = FALSE;
+                double dfSrcNoData = poSrcBand->GetNoDataValue( &bHasNoData );
+                if( bHasNoData )
+                    dfNoData = dfSrcNoData;
+            }
+
             poVRTBand->AddComplexSource( poSrcBand,
                                          anSrcWin[0], anSrcWin[1], 
                                          anSrcWin[2], anSrcWin[3], 
                                          0, 0, nOXSize, nOYSize,
                                          dfOffset, dfScale,
-                                         VRT_NODATA_UNSET,
+                                         dfNoData,
                                          (nRGBExpand != 0 && i < nRGBExpand) ? i + 1 : 0 );
         }
         else
@@ -565,8 +575,16 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
             poVRTBand->CopyCommonInfoFrom( poSrcBand );
 
-            // Statistics of the whole source are not those of a part of it
-            if( anSrcWin[0] != 0 || anSrcWin[1] != 0
+            // Scaled values need no further scaling to be read
+            if( bScale )
+            {
+                poVRTBand->SetScale( 1.0 );
+                poVRTBand->SetOffset( 0.0 );
+            }
+
+            // Statistics of the whole source are not those of a part of it,
+            // nor of other values
+            if( bScale || anSrcWin[0] != 0 || anSrcWin[1] != 0
                 || anSrcWin[2] != GDALGetRasterXSize(hDataset)
                 || anSrcWin[3] != GDALGetRasterYSize(hDataset)
                 || pszOXSize != NULL || pszOYSize != NULL )
-- 
2.43.0


From 7d73c928514987812948c83831b39988dde91417 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 148/166] fix: refuse projected windows outside the image
 without overflowing

---
 msat/gdal/gdaltranslate.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 9fa0099..d779a55 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,7 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <climits>
+#include <cmath>
 #include <ostream>
 
 using namespace std;
@@ -264,13 +265,10 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        anSrcWin[0] = (int) 
-            ((dfULX - adfGeoTransform[0]) / adfGeoTransform[1] + 0.001);
-        anSrcWin[1] = (int) 
-            ((dfULY - adfGeoTransform[3]) / adfGeoTransform[5] + 0.001);
-
-        anSrcWin[2] = (int) ((dfLRX - dfULX) / adfGeoTransform[1] + 0.5);
-        anSrcWin[3] = (int) ((dfLRY - dfULY) / adfGeoTransform[5] + 0.5);
+        double dfXOff = floor((dfULX - adfGeoTransform[0]) / adfGeoTransform[1] + 0.001);
+        double dfYOff = floor((dfULY - adfGeoTransform[3]) / adfGeoTransform[5] + 0.001);
+        double dfXSize = floor((dfLRX - dfULX) / adfGeoTransform[1] + 0.5);
+        double dfYSize = floor((dfLRY - dfULY) / adfGeoTransform[5] + 0.5);
 
 #if 0
         if( !bQuiet )
@@ -282,9 +280,9 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
                      anSrcWin[3] );
 #endif
         
-        if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
-            || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-            || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+        if( !(dfXOff >= 0 && dfYOff >= 0 && dfXSize > 0 && dfYSize > 0
+              && dfXOff + dfXSize <= GDALGetRasterXSize(hDataset)
+              && dfYOff + dfYSize <= GDALGetRasterYSize(hDataset)) )
         {
             CPLError(CE_Failure, CPLE_AppDefined, 
                      "Computed -srcwin falls outside raster size of %dx%d.",
@@ -292,6 +290,11 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
                      GDALGetRasterYSize(hDataset) );
             return NULL;
         }
+
+        anSrcWin[0] = (int) dfXOff;
+        anSrcWin[1] = (int) dfYOff;
+        anSrcWin[2] = (int) dfXSize;
+        anSrcWin[3] = (int) dfYSize;
     }
 
 /* -------------------------------------------------------------------- */
-- 
2.43.0


From 94f2c91fa5b356be9a7973df2e3539458e9f60ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 149/166] fix: include what the NetCDF utilities need to
 compile

---
 gdal/netcdf/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdal/netcdf/utils.h b/gdal/netcdf/utils.h
index a076f28..ca33b19 100644
--- a/gdal/netcdf/utils.h
+++ b/gdal/netcdf/utils.h
@@ -21,6 +21,7 @@
 #define MSAT_GDAL_NETCDF_UTILS_H
 
 #include <netcdfcpp.h>
+#include <sstream>
 #include <stdexcept>
 #include <gdal_priv.h>
 
-- 
2.43.0


From 2734d10c3b767eb3bea934cb244c8870f22b8840 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 150/166] fix: read 32 bit NetCDF values as such, not as long,
 which is twice as big

---
 gdal/netcdf/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 0a50ee4..2a46019 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -172,7 +172,7 @@ CPLErr NetCDFRasterBand::IReadBlock(int xblock, int yblock, void *buf)
                 case GDT_Int16:
                 case GDT_UInt16:  res = var->get( (short*)buf, 1, nBlockYSize, nBlockXSize); break;
                 case GDT_Int32:
-                case GDT_UInt32:  res = var->get(  (long*)buf, 1, nBlockYSize, nBlockXSize); break;
+                case GDT_UInt32:  res = var->get(   (int*)buf, 1, nBlockYSize, nBlockXSize); break;
                 case GDT_Float32: res = var->get( (float*)buf, 1, nBlockYSize, nBlockXSize); break;
                 case GDT_Float64: res = var->get((double*)buf, 1, nBlockYSize, nBlockXSize); break;
                 default:
-- 
2.43.0


From 68895bb1fe505018936ca42c24bde8e04fb9deca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 151/166] fix: keep the seconds of the NetCDF time, and the
 time zone of the program

---
 gdal/netcdf/utils.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 2a46019..5823a05 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -41,17 +41,9 @@ time_t forecastSeconds2000(const char* timestr)
         itm.tm_mday = day;
         itm.tm_hour = hour;
         itm.tm_min  = minute;
+        itm.tm_sec  = second;
 
-        // This ugly thing, or use the GNU extension timegm
-        const char* tz = getenv("TZ");
-        setenv("TZ", "", 1);
-        tzset();
-        time_t res = mktime(&itm);
-        if (tz)
-                setenv("TZ", tz, 1);
-        else
-                unsetenv("TZ");
-        tzset();
+        time_t res = timegm(&itm);
 
         // Also add timezone (and declare it as extern, see timezone(3) manpage) to
         // get the seconds in local time
-- 
2.43.0


From 888c792ec41516c332afc9786f5a1fbadb2c6493 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 152/166] fix: write the no data value of the image to NetCDF,
 when there is one

---
 gdal/netcdf/utils.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/gdal/netcdf/utils.cpp b/gdal/netcdf/utils.cpp
index 5823a05..e6a24b0 100644
--- a/gdal/netcdf/utils.cpp
+++ b/gdal/netcdf/utils.cpp
@@ -19,6 +19,7 @@
 
 #include "utils.h"
 #include <msat/facts.h>
+#include <limits>
 #include <string>
 
 using namespace std;
@@ -181,6 +182,21 @@ CPLErr NetCDFRasterBand::IReadBlock(int xblock, int yblock, void *buf)
         return CE_None;
 }
 
+// Set _FillValue to the no data value of the band, if it has one that its
+// pixels can have
+template<typename SRCTYPE, typename DSTTYPE>
+static int addFillValue(NcVar& dst, GDALRasterBand& src)
+{
+    int has_nodata = FALSE;
+    const double nodata = src.GetNoDataValue(&has_nodata);
+    if (!has_nodata)
+        return TRUE;
+    if (std::numeric_limits<SRCTYPE>::is_integer
+            && !(nodata >= std::numeric_limits<SRCTYPE>::min() && nodata <= std::numeric_limits<SRCTYPE>::max()))
+        return TRUE;
+    return ncfAddAttr(dst, "_FillValue", (DSTTYPE)(SRCTYPE)nodata);
+}
+
 template<typename DTYPE>
 bool copy_data(NcVar& dst, GDALRasterBand& src, GDALDataType outType)
 {
@@ -249,23 +265,23 @@ NcVar* rasterBandToNcVar(GDALRasterBand* rb, NcFile& ncf, NcDim* tdim, NcDim* ld
     switch (dtdst)
     {
         case ncByte:
-            if (!ncfAddAttr(*ivar, "_FillValue", (int8_t)rb->GetNoDataValue())) return NULL;
+            if (!addFillValue<unsigned char, ncbyte>(*ivar, *rb)) return NULL;
             res = copy_data<ncbyte>(*ivar, *rb, gdaldst);
             break;
         case ncShort:
-            if (!ncfAddAttr(*ivar, "_FillValue", (int16_t)rb->GetNoDataValue())) return NULL;
+            if (!(_Unsigned ? addFillValue<uint16_t, int16_t>(*ivar, *rb) : addFillValue<int16_t, int16_t>(*ivar, *rb))) return NULL;
             res = copy_data<int16_t>(*ivar, *rb, gdaldst);
             break;
         case ncInt:
-            if (!ncfAddAttr(*ivar, "_FillValue", (int32_t)rb->GetNoDataValue())) return NULL;
+            if (!(_Unsigned ? addFillValue<uint32_t, int32_t>(*ivar, *rb) : addFillValue<int32_t, int32_t>(*ivar, *rb))) return NULL;
             res = copy_data<int32_t>(*ivar, *rb, gdaldst);
             break;
         case ncFloat:
-            if (!ncfAddAttr(*ivar, "_FillValue", (float)rb->GetNoDataValue())) return NULL;
+            if (!addFillValue<float, float>(*ivar, *rb)) return NULL;
             res = copy_data<float>(*ivar, *rb, gdaldst);
             break;
         case ncDouble:
-            if (!ncfAddAttr(*ivar, "_FillValue", (double)rb->GetNoDataValue())) return NULL;
+            if (!addFillValue<double, double>(*ivar, *rb)) return NULL;
             res = copy_data<double>(*ivar, *rb, gdaldst);
             break;
         default:
-- 
2.43.0


From 3db445b5f99986e91cf6a1bf0ec2646f243b003d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 153/166] fix: report the bands that cannot be written to
 NetCDF instead of dying of them

---
 gdal/netcdf/netcdf.cpp   | 17 +++++++++--------
 gdal/netcdf/netcdf24.cpp | 11 ++++++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index 2d8d5c5..baabc84 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -330,12 +330,12 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
 		}
 
 		NcDim* xdim = ncf.add_dim("longitude", sx);
-		if (!xdim->is_valid()) throw std::runtime_error("adding longitude dimension failed");
+		if (!xdim || !xdim->is_valid()) throw std::runtime_error("adding longitude dimension failed");
 		NcDim* ydim = ncf.add_dim("latitude", sy);
-		if (!ydim->is_valid()) throw std::runtime_error("adding latitude dimension failed");
+		if (!ydim || !ydim->is_valid()) throw std::runtime_error("adding latitude dimension failed");
 
 		NcVar* xvar = ncf.add_var("longitude", ncFloat, xdim);
-		if (!xvar->is_valid()) throw std::runtime_error("adding lon variable failed");
+		if (!xvar || !xvar->is_valid()) throw std::runtime_error("adding lon variable failed");
 		ncfAddAttr(*xvar, "long_name", "longitude");
 		ncfAddAttr(*xvar, "units", "degrees_east");
 		ncfAddAttr(*xvar, "modulo", 360.0);
@@ -344,7 +344,7 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
 			throw std::runtime_error("writing longitude values failed");
 
 		NcVar* yvar = ncf.add_var("latitude", ncFloat, ydim);
-		if (!yvar->is_valid()) throw std::runtime_error("adding lat variable failed");
+		if (!yvar || !yvar->is_valid()) throw std::runtime_error("adding lat variable failed");
 		ncfAddAttr(*yvar, "long_name", "latitude");
 		ncfAddAttr(*yvar, "units", "degrees_north");
 		if (!yvar->put(lats, sy))
@@ -466,19 +466,19 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         //cerr << "dimensions." << endl;
 
         NcDim *tdim = ncf.add_dim("time");
-        if (!tdim->is_valid())
+        if (!tdim || !tdim->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add time dimension");
                 return NULL;
         }
         NcDim *ldim = ncf.add_dim("line", src->GetRasterYSize());
-        if (!ldim->is_valid())
+        if (!ldim || !ldim->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add line dimension");
                 return NULL;
         }
         NcDim *cdim = ncf.add_dim("column", src->GetRasterXSize());
-        if (!cdim->is_valid())
+        if (!cdim || !cdim->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add column dimension");
                 return NULL;
@@ -490,7 +490,7 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         //cerr << "calibration. cs: " << channelstring << endl;
 
         NcVar *tvar = ncf.add_var("time", ncDouble, tdim);
-        if (!tvar->is_valid())
+        if (!tvar || !tvar->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add time variable");
                 return NULL;
@@ -508,6 +508,7 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         {
                 GDALRasterBand* rb = src->GetRasterBand(i);
                 NcVar* ivar = rasterBandToNcVar(rb, ncf, tdim, ldim, cdim);
+                if (ivar == NULL) return NULL;
 
                 sval = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
                 if (sval != NULL)
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 21b2032..99f7543 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -337,7 +337,7 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
 
         /// Projection
         NcVar *projVar = ncf.add_var("Projection", ncInt);
-        if (!projVar->is_valid())
+        if (!projVar || !projVar->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "adding projection variable failed");
                 return NULL;
@@ -495,19 +495,19 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
         //cerr << "dimensions." << endl;
 
         NcDim *tdim = ncf.add_dim("time");
-        if (!tdim->is_valid())
+        if (!tdim || !tdim->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add time dimension");
                 return NULL;
         }
         NcDim *ldim = ncf.add_dim("line", src->GetRasterYSize());
-        if (!ldim->is_valid())
+        if (!ldim || !ldim->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add line dimension");
                 return NULL;
         }
         NcDim *cdim = ncf.add_dim("column", src->GetRasterXSize());
-        if (!cdim->is_valid())
+        if (!cdim || !cdim->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add column dimension");
                 return NULL;
@@ -519,7 +519,7 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
         //cerr << "calibration. cs: " << channelstring << endl;
 
         NcVar *tvar = ncf.add_var("time", ncDouble, tdim);
-        if (!tvar->is_valid())
+        if (!tvar || !tvar->is_valid())
         {
                 CPLError(CE_Failure, CPLE_AppDefined, "Cannot add time variable");
                 return NULL;
@@ -537,6 +537,7 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
         {
                 GDALRasterBand* rb = src->GetRasterBand(i);
                 NcVar* ivar = rasterBandToNcVar(rb, ncf, tdim, ldim, cdim);
+                if (ivar == NULL) return NULL;
 
                 const char* sval = rb->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
                 if (sval != NULL)
-- 
2.43.0


From 8a7908e044b8500d3a5a2622a2d298b5a8f61113 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 154/166] fix: refuse NetCDF images without a projection
 instead of crashing

---
 gdal/netcdf/netcdf.cpp   |  5 +++++
 gdal/netcdf/netcdf24.cpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index baabc84..d9d2a5d 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -296,6 +296,11 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
 
         // Projection
         const OGRSpatialReference* osr(src->GetSpatialRef());
+        if (osr == NULL)
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "source dataset does not have a projection");
+                return NULL;
+        }
 	string projection;
 	if (const char* proj = osr->GetAttrValue("PROJECTION"))
 		projection = proj;
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 99f7543..49a8bd7 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -144,6 +144,11 @@ bool NetCDF24Dataset::init()
 
         /// Projection
         NcVar* proj = nc->get_var("Projection");
+        if (proj == NULL)
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "NetCDF file does not have a Projection variable");
+                return false;
+        }
         if (NcAtt* a = proj->get_att("Lop"))
         {
                 dataset::set_spaceview(osr, getAttr<float>(*a));
@@ -343,6 +348,11 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
                 return NULL;
         }
 
+        if (src->GetSpatialRef() == NULL)
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "source dataset does not have a projection");
+                return NULL;
+        }
         OGRSpatialReference osr(*src->GetSpatialRef());
 
         // Sanity checks, and computation of target values
-- 
2.43.0


From 2d47abe00215f1dbc9b26bc35cc5380241bf3936 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 155/166] fix: do not write the NetCDF projection name past its
 buffer

---
 gdal/netcdf/netcdf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index d9d2a5d..2245a97 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -409,8 +409,8 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
                 // Set variables in NetCDF
 
                 if (!ncfAddAttr(ncf, "Area_Name", "SpaceView")) return NULL;
-                char projname[16];
-                sprintf(projname, "GEOS(%3.1f)", sublon);
+                char projname[64];
+                snprintf(projname, sizeof(projname), "GEOS(%3.1f)", sublon);
                 if (!ncfAddAttr(ncf, "Projection", projname)) return NULL;
                 if (!ncfAddAttr(ncf, "Orbit_Radius", ORBIT_RADIUS)) return NULL;
                 //if (! ncf.add_att("Orbit_Radius", pds.sh) ) return false;
-- 
2.43.0


From 1aecd6b37d945863dfbd0415e6ef641ef0f717fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 156/166] fix: report NetCDF files that could not be written
 completely

---
 gdal/netcdf/netcdf.cpp   | 6 +++++-
 gdal/netcdf/netcdf24.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index 2245a97..1e8fee5 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -521,7 +521,11 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         }
 
         // Close NetCDF output
-        (void) ncf.close( );
+        if (!ncf.close())
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "Cannot write NetCDF file %s: %s", pszFilename, nce.get_errmsg());
+                return NULL;
+        }
 
         //  cout << "Wrote file " << NcName << "." << endl;
 
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index 49a8bd7..c8be5e5 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -561,7 +561,11 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
         }
 
         // Close NetCDF output
-        (void) ncf.close( );
+        if (!ncf.close())
+        {
+                CPLError(CE_Failure, CPLE_AppDefined, "Cannot write NetCDF file %s: %s", pszFilename, nce.get_errmsg());
+                return NULL;
+        }
 
         //  cout << "Wrote file " << NcName << "." << endl;
 
-- 
2.43.0


From da028ed7548587e510f6a90702be3d75f4d3a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 157/166] fix: refuse to write to NetCDF an image time that
 cannot be read, and say so

---
 gdal/netcdf/netcdf.cpp   | 6 ++++++
 gdal/netcdf/netcdf24.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index 1e8fee5..f0c9db0 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -288,6 +288,12 @@ GDALDataset* NetCDFCreateCopy(const char* pszFilename, GDALDataset* src,
         sval = src->GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT);
         if (sval != NULL)
         {
+                int year, month, day, hour, minute, second;
+                if (sscanf(sval, "%d-%d-%d %d:%d:%d", &year, &month, &day, &hour, &minute, &second) != 6)
+                {
+                        CPLError(CE_Failure, CPLE_AppDefined, "cannot parse the image time \"%s\"", sval);
+                        return NULL;
+                }
                 fs2000 = forecastSeconds2000(sval);
                 string tmp = sval;
                 tmp += " UTC";
diff --git a/gdal/netcdf/netcdf24.cpp b/gdal/netcdf/netcdf24.cpp
index c8be5e5..07f8296 100644
--- a/gdal/netcdf/netcdf24.cpp
+++ b/gdal/netcdf/netcdf24.cpp
@@ -330,7 +330,10 @@ GDALDataset* NetCDF24CreateCopy(const char* pszFilename, GDALDataset* src,
 
                 int year, month, day, hour, minute, second;
                 if (sscanf(sval, "%d-%d-%d %d:%d:%d", &year, &month, &day, &hour, &minute, &second) != 6)
-                        return 0;
+                {
+                        CPLError(CE_Failure, CPLE_AppDefined, "cannot parse the image time \"%s\"", sval);
+                        return NULL;
+                }
 
                 if (!ncfAddAttr(ncf, "Year",   year)) return NULL;
                 if (!ncfAddAttr(ncf, "Month",  month)) return NULL;
-- 
2.43.0


From 68e0035c61742d05a0a0a3641b4117645ca94e7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:56:33 +0000
Subject: [PATCH 158/166] fix: do not take NetCDF grids of latitudes and
 longitudes for satellite views

---
 gdal/netcdf/netcdf.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gdal/netcdf/netcdf.cpp b/gdal/netcdf/netcdf.cpp
index f0c9db0..35064bc 100644
--- a/gdal/netcdf/netcdf.cpp
+++ b/gdal/netcdf/netcdf.cpp
@@ -175,8 +175,15 @@ bool NetCDFDataset::init()
 
 
         /// Projection
-        ftmp = getAttr<float>(ncf, "Longitude", 0);
-        dataset::set_spaceview(osr, ftmp);
+        if (ncf.get_att("Longitude") == NULL && ncf.get_var("longitude") != NULL && ncf.get_var("latitude") != NULL)
+        {
+                // Images on a grid of latitudes and longitudes
+                osr.SetWellKnownGeogCS("WGS84");
+                osr.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
+        } else {
+                ftmp = getAttr<float>(ncf, "Longitude", 0);
+                dataset::set_spaceview(osr, ftmp);
+        }
 
 #if 0
         /// History
-- 
2.43.0


From 71b2f5fdcc33e5300bc89e87f4d5edd04269c974 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 159/166] fix: write to NetCDF the time of the image in any
 time zone

---
 tools/hri/HRI2NetCDF.cpp             | 6 +++---
 tools/hrit/XRIT2NetCDF.cpp           | 6 +++---
 tools/openmtp/OpenMTP_to_NetCDF.cpp  | 6 +++---
 tools/thornsds_db1/db1_to_netcdf.cpp | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tools/hri/HRI2NetCDF.cpp b/tools/hri/HRI2NetCDF.cpp
index e9fface..770505b 100644
--- a/tools/hri/HRI2NetCDF.cpp
+++ b/tools/hri/HRI2NetCDF.cpp
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstdlib>
+#include <ctime>
 #include <cstring>
 
 // Unidata NetCDF
@@ -142,9 +143,8 @@ static bool NetCDFProduct(char *inname)
     tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
     double atime;
     time_t ttime;
-    extern long timezone;
-    ttime = mktime(tmtime);
-    atime = ttime - 946684800 - timezone;
+    ttime = timegm(tmtime);
+    atime = ttime - 946684800;
     if (!tvar->put(&atime, 1)) return false;
 
     ivar = ncf.add_var(hri.image[i].name.c_str( ), ncByte, tdim, ldim, cdim);
diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index 7bdc538..ce936a2 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -24,6 +24,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstdlib>
+#include <ctime>
 #include <cstring>
 
 #include "config.h"
@@ -461,9 +462,8 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
   time_t ttime;
-  extern long timezone;
-  ttime = mktime(tmtime);
-  atime = ttime - 946684800 - timezone;
+  ttime = timegm(tmtime);
+  atime = ttime - 946684800;
   if (!tvar->put(&atime, 1)) return false;
 
   ivar = ncf.add_var(channel, ncShort, tdim, ldim, cdim);
diff --git a/tools/openmtp/OpenMTP_to_NetCDF.cpp b/tools/openmtp/OpenMTP_to_NetCDF.cpp
index d3b1eda..bcd6ca4 100644
--- a/tools/openmtp/OpenMTP_to_NetCDF.cpp
+++ b/tools/openmtp/OpenMTP_to_NetCDF.cpp
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstdlib>
+#include <ctime>
 
 // Unidata NetCDF
 
@@ -170,9 +171,8 @@ static bool NetCDFProduct( char *inpath )
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
   time_t ttime;
-  extern long timezone;
-  ttime = mktime(&tmtime);
-  atime = ttime - 946684800 - timezone;
+  ttime = timegm(&tmtime);
+  atime = ttime - 946684800;
   if (!tvar->put(&atime, 1)) return false;
 
   // Define channel values variable
diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index 9cf5327..be1efa6 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -165,15 +165,15 @@ int main (int argc, char *argv[])
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
   time_t ttime;
-  extern long timezone;
+  memset(&tmtime, 0, sizeof(tmtime));
   tmtime.tm_year = year - 1900;
   tmtime.tm_mon = month - 1;
   tmtime.tm_mday = day;
   tmtime.tm_hour = hour;
   tmtime.tm_min = minute;
   tmtime.tm_sec = second;
-  ttime = mktime(&tmtime);
-  atime = ttime - 946684800 - timezone;
+  ttime = timegm(&tmtime);
+  atime = ttime - 946684800;
   if (!tvar->put(&atime, 1)) return false;
 
   ivar = ncf.add_var(db1.get_channel_INFO_name( ), ncShort, tdim, ldim, cdim);
-- 
2.43.0


From 6b9389901ff15be86aecd0fc743a564ec769b021 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 160/166] fix: do not swap the column and line offsets in
 db1_to_netcdf

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index be1efa6..f1d44b5 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -93,8 +93,8 @@ int main (int argc, char *argv[])
   float sublon = 0.0;
   int cfac = db1.get_AoI_cfac( );
   int lfac = db1.get_AoI_lfac( );
-  int loff = db1.get_AoI_coff( );
-  int coff = db1.get_AoI_loff( );
+  int loff = db1.get_AoI_loff( );
+  int coff = db1.get_AoI_coff( );
   int spix = 1;
   int slin = 1;
   float sh = 42164.0;
-- 
2.43.0


From f52de11415345653645c574d27a515bfdfddf6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 161/166] fix: place the areas of XRIT2NetCDF where they are,
 and refuse those outside the image

---
 tools/hrit/XRIT2NetCDF.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index ce936a2..995d97d 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -56,7 +56,7 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
 		   MSG_header *header, MSG_data *msgdat);
 
 bool is_subarea = false;
-int AreaLinStart = 1, AreaNlin, AreaPixStart = 1, AreaNpix;
+int AreaLinStart = 0, AreaNlin, AreaPixStart = 0, AreaNpix;
 
 /* ************************************************************************* */
 /* Reads Data Images, performs calibration and store output in NetCDF format */
@@ -114,8 +114,12 @@ int main( int argc, char* argv[] )
       case 'a':
        is_subarea = true;
        areastring = strdup(optarg);
-       sscanf(areastring, "%d,%d,%d,%d",
-              &AreaLinStart, &AreaNlin, &AreaPixStart, &AreaNpix);
+       if (sscanf(areastring, "%d,%d,%d,%d",
+                  &AreaLinStart, &AreaNlin, &AreaPixStart, &AreaNpix) != 4)
+       {
+         std::cerr << "Wrong area " << areastring << std::endl;
+         return 1;
+       }
        AreaPixStart --;
        AreaLinStart --;
        break;
@@ -340,21 +344,21 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   // Manage subarea
   if (is_subarea)
   {
-    if (AreaLinStart < 0                             ||
+    if (AreaLinStart < 0 || AreaNlin < 1             ||
         AreaLinStart > nlin - AreaNlin ||
         AreaNlin > nlin - AreaLinStart)
     {
       std::cerr << "Wrong Subarea in lines...." << std::endl;
-      throw;
+      return false;
     }
-    if (AreaPixStart < 0               ||
+    if (AreaPixStart < 0 || AreaNpix < 1 ||
         AreaPixStart > npix - AreaNpix ||
         AreaNpix > npix - AreaPixStart)
     {
       std::cerr << "Wrong Subarea in Pixels...." << std::endl;
-      throw;
+      return false;
     }
-    size_t newsize = AreaNpix * AreaNlin;
+    size_t newsize = (size_t) AreaNpix * AreaNlin;
     MSG_SAMPLE *newpix = new MSG_SAMPLE[newsize];
     memset(newpix, 0, newsize*sizeof(MSG_SAMPLE));
     for (int i = 0; i < AreaNlin; i ++)
@@ -410,8 +414,8 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   if (! ncf.add_att("Lines", AreaNlin ) ) return false;
   if (! ncf.add_att("SampleX", 1.0 ) ) return false;
   if (! ncf.add_att("SampleY", 1.0 ) ) return false;
-  if (! ncf.add_att("AreaStartPix", AreaPixStart ) ) return false;
-  if (! ncf.add_att("AreaStartLin", AreaLinStart ) ) return false;
+  if (! ncf.add_att("AreaStartPix", AreaPixStart + 1 ) ) return false;
+  if (! ncf.add_att("AreaStartLin", AreaLinStart + 1 ) ) return false;
   if (! ncf.add_att("Column_Scale_Factor", cfac) ) return false;
   if (! ncf.add_att("Line_Scale_Factor", lfac) ) return false;
   if (! ncf.add_att("Column_Offset", coff) ) return false;
-- 
2.43.0


From e866c937699726e1e91c0b807f468a0af2ff22ef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 162/166] fix: report what XRIT2NetCDF cannot convert instead
 of dying of it

---
 tools/hrit/XRIT2NetCDF.cpp | 68 +++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index 995d97d..006a4c0 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -62,7 +62,7 @@ int AreaLinStart = 0, AreaNlin, AreaPixStart = 0, AreaNpix;
 /* Reads Data Images, performs calibration and store output in NetCDF format */
 /* ************************************************************************* */
 
-int main( int argc, char* argv[] )
+static int convert( int argc, char* argv[] )
 {
   char *directory = NULL;
   char *resolution = NULL;
@@ -126,11 +126,14 @@ int main( int argc, char* argv[] )
       case 'V':
        std::cout << pname << " " << PACKAGE_STRING << std::endl;
        return 0;
-      case '?':
       case 'h':
        usage(pname);
        return(0);
        break;
+      case '?':
+       usage(pname);
+       return(1);
+       break;
       default:
        std::cerr << "?? getopt returned character code"
                  << std::oct << c << "??" << std::endl;
@@ -187,6 +190,11 @@ int main( int argc, char* argv[] )
   PRO_head.read_from(hrit);
   PRO_data.read_from(hrit, PRO_head);
   hrit.close( );
+  if (! PRO_data.prologue)
+  {
+    std::cerr << globbuf.gl_pathv[1] << " is not a prologue" << std::endl;
+    return 1;
+  }
   std::cout << PRO_head;
 
   globfree(&globbuf);
@@ -228,6 +236,13 @@ int main( int argc, char* argv[] )
       return 1;
     }
     header[i].read_from(hrit);
+    if (! header[i].segment_id || ! header[i].image_structure ||
+        ! header[i].image_navigation)
+    {
+      std::cerr << globbuf.gl_pathv[i+1] << " is not an image segment"
+                << std::endl;
+      return 1;
+    }
     msgdat[i].read_from(hrit, header[i]);
     hrit.close( );
     // std::cout << header[i];
@@ -237,11 +252,35 @@ int main( int argc, char* argv[] )
 
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
-    std::cout << "Product dumped in binary format." << std::endl;
-    return 0;
+    std::cerr << "Product dumped in binary format." << std::endl;
+    return 1;
   }
 
   int totalsegs = header[0].segment_id->planned_end_segment_sequence_number;
+  int npix = header[0].image_structure->number_of_columns;
+  int nlin = header[0].image_structure->number_of_lines;
+
+  // All the segments need to be pieces of the same image
+  for (int i = 0; i < nsegments; i ++)
+    if (header[i].segment_id->sequence_number < 1 ||
+        header[i].segment_id->sequence_number > totalsegs ||
+        header[i].image_structure->number_of_columns != npix ||
+        header[i].image_structure->number_of_lines != nlin ||
+        ! msgdat[i].image || msgdat[i].image->len < (size_t) npix*nlin)
+    {
+      std::cerr << "Segment " << header[i].segment_id->sequence_number
+                << " does not match the others." << std::endl;
+      return 1;
+    }
+  if (header[0].segment_id->spectral_channel_id < 1 ||
+      header[0].segment_id->spectral_channel_id > 12 ||
+      header[0].image_structure->number_of_bits_per_pixel > 16)
+  {
+    std::cerr << "Only images of SEVIRI channels can be converted."
+              << std::endl;
+    return 1;
+  }
+
   int *segsindexes = new int[totalsegs]; 
 
   for (int i = 0; i < totalsegs; i ++)
@@ -253,7 +292,10 @@ int main( int argc, char* argv[] )
   std::cout << "Writing NetCDF output..." << std::endl;
   if(!NetCDFProduct(&PRO_head, &PRO_data,
                     totalsegs, segsindexes, header, msgdat))
-    throw "Created NetCDF product NOT OK";
+  {
+    std::cerr << "Created NetCDF product NOT OK" << std::endl;
+    return 1;
+  }
 
   delete [ ] header;
   delete [ ] msgdat;
@@ -262,6 +304,16 @@ int main( int argc, char* argv[] )
   return(0);
 }
 
+int main( int argc, char* argv[] )
+{
+  try {
+    return convert(argc, argv);
+  } catch (std::exception &e) {
+    std::cerr << argv[0] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
+}
+
 void usage(char *pname)
 {
   std::cout << pname << ": Convert HRIT/LRIT files to NetCDF format."
@@ -311,7 +363,7 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   struct tm *tmtime;
   char NcName[1024];
   char reftime[64];
-  char projname[16];
+  char projname[64];
   int wd, hg;
   int bpp;
   int ncal;
@@ -325,7 +377,7 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
 
   int npix = header[0].image_structure->number_of_columns;
   int nlin = header[0].image_structure->number_of_lines;
-  size_t npixperseg = npix*nlin;
+  size_t npixperseg = (size_t) npix*nlin;
 
   size_t total_size = totalsegs*npixperseg;
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
@@ -408,7 +460,7 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   if (! ncf.add_att("Receiver", "HIMET") ) return false;
   if (! ncf.add_att("Time", reftime) ) return false;
   if (! ncf.add_att("Area_Name", "SpaceView" ) ) return false;
-  sprintf(projname, "GEOS(%3.1f)", sublon);
+  snprintf(projname, sizeof(projname), "GEOS(%3.1f)", sublon);
   if (! ncf.add_att("Projection", projname) ) return false;
   if (! ncf.add_att("Columns", AreaNpix ) ) return false;
   if (! ncf.add_att("Lines", AreaNlin ) ) return false;
-- 
2.43.0


From eff3885fe2a1acab953488cc92d435a363c9e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 163/166] fix: report NetCDF files that the converters could
 not write

---
 tools/hri/HRI2NetCDF.cpp             | 20 ++++---
 tools/hrit/XRIT2NetCDF.cpp           | 20 ++++---
 tools/openmtp/OpenMTP_to_NetCDF.cpp  | 20 ++++---
 tools/thornsds_db1/db1_to_netcdf.cpp | 86 +++++++++++++++-------------
 4 files changed, 81 insertions(+), 65 deletions(-)

diff --git a/tools/hri/HRI2NetCDF.cpp b/tools/hri/HRI2NetCDF.cpp
index 770505b..8dd26fe 100644
--- a/tools/hri/HRI2NetCDF.cpp
+++ b/tools/hri/HRI2NetCDF.cpp
@@ -118,27 +118,27 @@ static bool NetCDFProduct(char *inname)
     bpp = (int) pow(2.0, hri.get_bits_per_pixel( ));
 
     tdim = ncf.add_dim("time");
-    if (!tdim->is_valid()) return false;
+    if (!tdim || !tdim->is_valid()) return false;
     ldim = ncf.add_dim("line", hg);
-    if (!ldim->is_valid()) return false;
+    if (!ldim || !ldim->is_valid()) return false;
     cdim = ncf.add_dim("column", wd);
-    if (!cdim->is_valid()) return false;
+    if (!cdim || !cdim->is_valid()) return false;
     caldim = ncf.add_dim("calibration", bpp);
-    if (!caldim->is_valid()) return false;
+    if (!caldim || !caldim->is_valid()) return false;
 
     // Get calibration values
     cal = hri.image[i].get_calibration( );
 
     // Add Calibration values
     NcVar *cvar = ncf.add_var("calibration", ncFloat, caldim);
-    if (!cvar->is_valid()) return false;
+    if (!cvar || !cvar->is_valid()) return false;
     cvar->add_att("long_name", "Calibration coefficients");
     cvar->add_att("variable", hri.image[i].name.c_str( ));
     cvar->add_att("units", hri.image[i].units.c_str( ));
     if (!cvar->put(cal, bpp)) return false;
 
     tvar = ncf.add_var("time", ncDouble, tdim);
-    if (!tvar->is_valid()) return false;
+    if (!tvar || !tvar->is_valid()) return false;
     tvar->add_att("long_name", "Time");
     tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
     double atime;
@@ -148,7 +148,7 @@ static bool NetCDFProduct(char *inname)
     if (!tvar->put(&atime, 1)) return false;
 
     ivar = ncf.add_var(hri.image[i].name.c_str( ), ncByte, tdim, ldim, cdim);
-    if (!ivar->is_valid()) return false;
+    if (!ivar || !ivar->is_valid()) return false;
     if (!ivar->add_att("add_offset", 0.0)) return false;
     if (!ivar->add_att("scale_factor", 1.0)) return false;
     if (!ivar->add_att("chnum", hri.image[i].get_image_band( ))) return false;
@@ -157,7 +157,11 @@ static bool NetCDFProduct(char *inname)
     if (!ivar->put((const ncbyte*)hri.image[i].get_image( ), 1, hg, wd)) return false;
 
     // Close NetCDF output
-    (void) ncf.close( );
+    if (! ncf.close( ))
+    {
+      std::cerr << "Cannot write " << NcName << std::endl;
+      return false;
+    }
 
   }
 
diff --git a/tools/hrit/XRIT2NetCDF.cpp b/tools/hrit/XRIT2NetCDF.cpp
index 006a4c0..7d57d49 100644
--- a/tools/hrit/XRIT2NetCDF.cpp
+++ b/tools/hrit/XRIT2NetCDF.cpp
@@ -490,20 +490,20 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   ncal = (int) pow(2.0, bpp);
 
   tdim = ncf.add_dim("time");
-  if (!tdim->is_valid()) return false;
+  if (!tdim || !tdim->is_valid()) return false;
   ldim = ncf.add_dim("line", hg);
-  if (!ldim->is_valid()) return false;
+  if (!ldim || !ldim->is_valid()) return false;
   cdim = ncf.add_dim("column", wd);
-  if (!cdim->is_valid()) return false;
+  if (!cdim || !cdim->is_valid()) return false;
   caldim = ncf.add_dim("calibration", ncal);
-  if (!caldim->is_valid()) return false;
+  if (!caldim || !caldim->is_valid()) return false;
 
   // Get calibration values
   cal = PRO_data->prologue->radiometric_proc.get_calibration((int) chn, bpp);
 
   // Add Calibration values
   NcVar *cvar = ncf.add_var("calibration", ncFloat, caldim);
-  if (!cvar->is_valid()) return false;
+  if (!cvar || !cvar->is_valid()) return false;
   cvar->add_att("long_name", "Calibration coefficients");
   cvar->add_att("variable", channel);
   if (chn > 3 && chn < 12)
@@ -513,7 +513,7 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   if (!cvar->put(cal, ncal)) return false;
 
   tvar = ncf.add_var("time", ncDouble, tdim);
-  if (!tvar->is_valid()) return false;
+  if (!tvar || !tvar->is_valid()) return false;
   tvar->add_att("long_name", "Time");
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
@@ -523,7 +523,7 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   if (!tvar->put(&atime, 1)) return false;
 
   ivar = ncf.add_var(channel, ncShort, tdim, ldim, cdim);
-  if (!ivar->is_valid()) return false;
+  if (!ivar || !ivar->is_valid()) return false;
   if (!ivar->add_att("add_offset", 0.0)) return false;
   if (!ivar->add_att("scale_factor", 1.0)) return false;
   if (!ivar->add_att("chnum", chn)) return false;
@@ -532,7 +532,11 @@ bool NetCDFProduct(MSG_header *PRO_head, MSG_data* PRO_data,
   if (!ivar->put((const short int *) pixels, 1, hg, wd)) return false;
 
   // Close NetCDF output
-  (void) ncf.close( );
+  if (! ncf.close( ))
+  {
+    std::cerr << "Cannot write " << NcName << std::endl;
+    return false;
+  }
 
   delete [ ] pixels;
   delete [ ] cal;
diff --git a/tools/openmtp/OpenMTP_to_NetCDF.cpp b/tools/openmtp/OpenMTP_to_NetCDF.cpp
index bcd6ca4..1193aa3 100644
--- a/tools/openmtp/OpenMTP_to_NetCDF.cpp
+++ b/tools/openmtp/OpenMTP_to_NetCDF.cpp
@@ -146,27 +146,27 @@ static bool NetCDFProduct( char *inpath )
 
   // Define dimensions
   tdim = ncf.add_dim("time");
-  if (!tdim->is_valid()) return false;
+  if (!tdim || !tdim->is_valid()) return false;
   ldim = ncf.add_dim("line", hg);
-  if (!ldim->is_valid()) return false;
+  if (!ldim || !ldim->is_valid()) return false;
   cdim = ncf.add_dim("column", wd);
-  if (!cdim->is_valid()) return false;
+  if (!cdim || !cdim->is_valid()) return false;
   caldim = ncf.add_dim("calibration", bpp);
-  if (!caldim->is_valid()) return false;
+  if (!caldim || !caldim->is_valid()) return false;
 
   // Get calibration values
   cal = omtp.get_calibration( );
 
   // Add Calibration values
   NcVar *cvar = ncf.add_var("calibration", ncFloat, caldim);
-  if (!cvar->is_valid()) return false;
+  if (!cvar || !cvar->is_valid()) return false;
   cvar->add_att("long_name", "Calibration coefficients");
   cvar->add_att("variable", omtp.get_chname( ));
   cvar->add_att("units", omtp.get_chunit( ));
   if (!cvar->put(cal, bpp)) return false;
 
   tvar = ncf.add_var("time", ncDouble, tdim);
-  if (!tvar->is_valid()) return false;
+  if (!tvar || !tvar->is_valid()) return false;
   tvar->add_att("long_name", "Time");
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
@@ -177,7 +177,7 @@ static bool NetCDFProduct( char *inpath )
 
   // Define channel values variable
   ivar = ncf.add_var(omtp.get_chname( ), ncByte, tdim, ldim, cdim);
-  if (!ivar->is_valid()) return false;
+  if (!ivar || !ivar->is_valid()) return false;
   if (!ivar->add_att("add_offset", 0.0)) return false;
   if (!ivar->add_att("scale_factor", 1.0)) return false;
 
@@ -185,7 +185,11 @@ static bool NetCDFProduct( char *inpath )
   if (!ivar->put((ncbyte*)omtp.get_image( ), 1, hg, wd)) return false;
 
   // Close NetCDF output
-  (void) ncf.close( );
+  if (! ncf.close( ))
+  {
+    std::cerr << "Cannot write " << NcName << std::endl;
+    return false;
+  }
 
   return( true );
 }
diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index f1d44b5..93fc14b 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -100,67 +100,67 @@ int main (int argc, char *argv[])
   float sh = 42164.0;
 
   NcFile ncf ( outname , NcFile::Replace );
-  if (! ncf.is_valid()) return false;
+  if (! ncf.is_valid()) return -1;
 
   // Fill arrays on creation
   ncf.set_fill(NcFile::Fill);
 
   // Add Global Attributes
   if (! ncf.add_att("Satellite", db1.get_INFO_satellite_name( )))
-	            return false;
+	            return -1;
   int year,month,day,hour,minute,second;
   sscanf(db1.get_INFO_schedule_start( ), "%02d/%02d/%04d %02d:%02d:%02d.000",
          &day, &month, &year, &hour, &minute, &second);
   sprintf(reftime, "%04d-%02d-%02d %02d:%02d:%02d UTC",
           year, month, day, hour, minute, second);
-  if (! ncf.add_att("Antenna", "Fixed") ) return false;
-  if (! ncf.add_att("Receiver", db1.get_INFO_station_name( )) ) return false;
-  if (! ncf.add_att("Time", reftime) ) return false;
-  if (! ncf.add_att("Area_Name", db1.get_AoI_name( ) ) ) return false;
-  if (! ncf.add_att("Projection", db1.get_AoI_projection( )) ) return false;
-  if (! ncf.add_att("Columns", wd ) ) return false;
-  if (! ncf.add_att("Lines", hg ) ) return false;
-  if (! ncf.add_att("SampleX", 1.0 ) ) return false;
-  if (! ncf.add_att("SampleY", 1.0 ) ) return false;
-  if (! ncf.add_att("AreaStartPix", spix ) ) return false;
-  if (! ncf.add_att("AreaStartLin", slin ) ) return false;
-  if (! ncf.add_att("Column_Scale_Factor", cfac) ) return false;
-  if (! ncf.add_att("Line_Scale_Factor", lfac) ) return false;
-  if (! ncf.add_att("Column_Offset", coff) ) return false;
-  if (! ncf.add_att("Line_Offset", loff) ) return false;
-  if (! ncf.add_att("Orbit_Radius", sh) ) return false;
-  if (! ncf.add_att("Longitude", sublon) ) return false;
-  if (! ncf.add_att("NortPolar", 1) ) return false;
+  if (! ncf.add_att("Antenna", "Fixed") ) return -1;
+  if (! ncf.add_att("Receiver", db1.get_INFO_station_name( )) ) return -1;
+  if (! ncf.add_att("Time", reftime) ) return -1;
+  if (! ncf.add_att("Area_Name", db1.get_AoI_name( ) ) ) return -1;
+  if (! ncf.add_att("Projection", db1.get_AoI_projection( )) ) return -1;
+  if (! ncf.add_att("Columns", wd ) ) return -1;
+  if (! ncf.add_att("Lines", hg ) ) return -1;
+  if (! ncf.add_att("SampleX", 1.0 ) ) return -1;
+  if (! ncf.add_att("SampleY", 1.0 ) ) return -1;
+  if (! ncf.add_att("AreaStartPix", spix ) ) return -1;
+  if (! ncf.add_att("AreaStartLin", slin ) ) return -1;
+  if (! ncf.add_att("Column_Scale_Factor", cfac) ) return -1;
+  if (! ncf.add_att("Line_Scale_Factor", lfac) ) return -1;
+  if (! ncf.add_att("Column_Offset", coff) ) return -1;
+  if (! ncf.add_att("Line_Offset", loff) ) return -1;
+  if (! ncf.add_att("Orbit_Radius", sh) ) return -1;
+  if (! ncf.add_att("Longitude", sublon) ) return -1;
+  if (! ncf.add_att("NortPolar", 1) ) return -1;
   if (! ncf.add_att("NorthSouth", (! db1.get_INFO_schedule_northsouth( ))) )
-      return false;
-  if (! ncf.add_att("title", TITLE) ) return false;
-  if (! ncf.add_att("Institution", INSTITUTION) ) return false;
-  if (! ncf.add_att("Type", TYPE) ) return false;
-  if (! ncf.add_att("Version", NCVERSION) ) return false;
-  if (! ncf.add_att("Conventions", "COARDS") ) return false;
-  if (! ncf.add_att("history", "Created from raw data") ) return false;
+      return -1;
+  if (! ncf.add_att("title", TITLE) ) return -1;
+  if (! ncf.add_att("Institution", INSTITUTION) ) return -1;
+  if (! ncf.add_att("Type", TYPE) ) return -1;
+  if (! ncf.add_att("Version", NCVERSION) ) return -1;
+  if (! ncf.add_att("Conventions", "COARDS") ) return -1;
+  if (! ncf.add_att("history", "Created from raw data") ) return -1;
 
   // Dimensions
 
   tdim = ncf.add_dim("time");
-  if (!tdim->is_valid()) return false;
+  if (!tdim || !tdim->is_valid()) return -1;
   ldim = ncf.add_dim("line", hg);
-  if (!ldim->is_valid()) return false;
+  if (!ldim || !ldim->is_valid()) return -1;
   cdim = ncf.add_dim("column", wd);
-  if (!cdim->is_valid()) return false;
+  if (!cdim || !cdim->is_valid()) return -1;
   caldim = ncf.add_dim("calibration", ncal);
-  if (!caldim->is_valid()) return false;
+  if (!caldim || !caldim->is_valid()) return -1;
 
   // Add Calibration values
   NcVar *cvar = ncf.add_var("calibration", ncFloat, caldim);
-  if (!cvar->is_valid()) return false;
+  if (!cvar || !cvar->is_valid()) return -1;
   cvar->add_att("long_name", "Calibration coefficients");
   cvar->add_att("variable", db1.get_channel_INFO_variable( ));
   cvar->add_att("units", db1.get_channel_INFO_units( ));
-  if (!cvar->put(cal, ncal)) return false;
+  if (!cvar->put(cal, ncal)) return -1;
 
   tvar = ncf.add_var("time", ncDouble, tdim);
-  if (!tvar->is_valid()) return false;
+  if (!tvar || !tvar->is_valid()) return -1;
   tvar->add_att("long_name", "Time");
   tvar->add_att("units", "seconds since 2000-01-01 00:00:00 UTC");
   double atime;
@@ -174,19 +174,23 @@ int main (int argc, char *argv[])
   tmtime.tm_sec = second;
   ttime = timegm(&tmtime);
   atime = ttime - 946684800;
-  if (!tvar->put(&atime, 1)) return false;
+  if (!tvar->put(&atime, 1)) return -1;
 
   ivar = ncf.add_var(db1.get_channel_INFO_name( ), ncShort, tdim, ldim, cdim);
-  if (!ivar->is_valid()) return false;
-  if (!ivar->add_att("add_offset", 0.0)) return false;
-  if (!ivar->add_att("scale_factor", 1.0)) return false;
-  if (!ivar->add_att("chnum", db1.chname_to_chnum(argv[2]))) return false;
+  if (!ivar || !ivar->is_valid()) return -1;
+  if (!ivar->add_att("add_offset", 0.0)) return -1;
+  if (!ivar->add_att("scale_factor", 1.0)) return -1;
+  if (!ivar->add_att("chnum", db1.chname_to_chnum(argv[2]))) return -1;
 
   // Write output values
-  if (!ivar->put((const short int *) pixels, 1, hg, wd)) return false;
+  if (!ivar->put((const short int *) pixels, 1, hg, wd)) return -1;
 
   // Close NetCDF output
-  (void) ncf.close( );
+  if (! ncf.close( ))
+  {
+    std::cerr << "Cannot write " << outname << std::endl;
+    return -1;
+  }
 
   db1.close( );
   return 0;
-- 
2.43.0


From 553f9a02aa89aa320216e6bcd4561c9bebecdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:09:04 +0000
Subject: [PATCH 164/166] fix: report what db1_to_netcdf cannot convert instead
 of reading past it

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index 93fc14b..3ac1dd6 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -66,6 +66,30 @@ int main (int argc, char *argv[])
     return -1;
   }
 
+  if (db1.get_INFO_image_pixels( ) < 1 || db1.get_INFO_image_lines( ) < 1 ||
+      db1.get_raw_data_nvals( ) / db1.get_INFO_image_pixels( ) <
+      db1.get_INFO_image_lines( ))
+  {
+    std::cerr << "Exit: the data does not have the pixels of the image."
+              << std::endl;
+    return -1;
+  }
+
+  if (db1.get_number_of_calibration( ) < 1)
+  {
+    std::cerr << "Exit: the channel has no calibration." << std::endl;
+    return -1;
+  }
+
+  int year,month,day,hour,minute,second;
+  if (sscanf(db1.get_INFO_schedule_start( ), "%02d/%02d/%04d %02d:%02d:%02d.000",
+             &day, &month, &year, &hour, &minute, &second) != 6)
+  {
+    std::cerr << "Exit: the start of the schedule cannot be read: "
+              << db1.get_INFO_schedule_start( ) << std::endl;
+    return -1;
+  }
+
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s_%s_%s.nc", db1.get_INFO_satellite_name( ),
            db1.get_channel_INFO_name( ), db1.get_INFO_schedule_start( ));
@@ -108,9 +132,6 @@ int main (int argc, char *argv[])
   // Add Global Attributes
   if (! ncf.add_att("Satellite", db1.get_INFO_satellite_name( )))
 	            return -1;
-  int year,month,day,hour,minute,second;
-  sscanf(db1.get_INFO_schedule_start( ), "%02d/%02d/%04d %02d:%02d:%02d.000",
-         &day, &month, &year, &hour, &minute, &second);
   sprintf(reftime, "%04d-%02d-%02d %02d:%02d:%02d UTC",
           year, month, day, hour, minute, second);
   if (! ncf.add_att("Antenna", "Fixed") ) return -1;
-- 
2.43.0


From 72c7f7d24731030ba3f195a56d652db4f6095050 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:09:04 +0000
Subject: [PATCH 165/166] fix: report what HRI2NetCDF and OpenMTP_to_NetCDF
 cannot convert instead of dying of it

---
 tools/hri/HRI2NetCDF.cpp            | 11 ++++++++---
 tools/openmtp/OpenMTP_to_NetCDF.cpp | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/tools/hri/HRI2NetCDF.cpp b/tools/hri/HRI2NetCDF.cpp
index 8dd26fe..2190f13 100644
--- a/tools/hri/HRI2NetCDF.cpp
+++ b/tools/hri/HRI2NetCDF.cpp
@@ -184,9 +184,14 @@ int main( int argc, char* argv[] )
     std::cout << argv[0] << " " << PACKAGE_STRING << std::endl;
     return 0;
   }
-  if (!NetCDFProduct(argv[1]))
-  {
-    std::cerr << "Created NetCDF product NOT OK" << std::endl;
+  try {
+    if (!NetCDFProduct(argv[1]))
+    {
+      std::cerr << "Created NetCDF product NOT OK" << std::endl;
+      return 1;
+    }
+  } catch (std::exception &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
     return 1;
   }
 
diff --git a/tools/openmtp/OpenMTP_to_NetCDF.cpp b/tools/openmtp/OpenMTP_to_NetCDF.cpp
index 1193aa3..ab6b14a 100644
--- a/tools/openmtp/OpenMTP_to_NetCDF.cpp
+++ b/tools/openmtp/OpenMTP_to_NetCDF.cpp
@@ -47,7 +47,7 @@ static bool NetCDFProduct( char *inpath )
   OpenMTP omtp;
   struct tm tmtime;
   char NcName[1024];
-  char title[64];
+  char title[128];
   char reftime[64];
   int cfac, lfac, coff, loff;
   float scale;
@@ -134,7 +134,7 @@ static bool NetCDFProduct( char *inpath )
   if (! ncf.add_att("Conventions", "COARDS") ) return false;
   if (! ncf.add_att("history", "Created from OpenMTP format data") )
     return false;
-  sprintf(title, "OpenMTP %s product for %04d-%02d-%02d %02d:%02d:00 UTC",
+  snprintf(title, sizeof(title), "OpenMTP %s product for %04d-%02d-%02d %02d:%02d:00 UTC",
             omtp.get_field_name( ), tmtime.tm_year + 1900, tmtime.tm_mon + 1,
             tmtime.tm_mday, tmtime.tm_hour, tmtime.tm_min);
   if (! ncf.add_att("title", title) ) return false;
@@ -211,9 +211,17 @@ int main( int argc, char* argv[] )
     return 0;
   }
 
-  if (!NetCDFProduct(argv[1]))
-  {
-    std::cerr << "Created NetCDF product NOT OK" << std::endl;
+  try {
+    if (!NetCDFProduct(argv[1]))
+    {
+      std::cerr << "Created NetCDF product NOT OK" << std::endl;
+      return 1;
+    }
+  } catch (std::exception &e) {
+    std::cerr << argv[1] << ": " << e.what( ) << std::endl;
+    return 1;
+  } catch (const char *e) {
+    std::cerr << argv[1] << ": " << e;
     return 1;
   }
 
-- 
2.43.0


From 7d3e2d99852a4be9b2b41f864af2f3d079e790af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:14:26 +0000
Subject: [PATCH 166/166] fix: say that db1_to_netcdf cannot create its output

---
 tools/thornsds_db1/db1_to_netcdf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_netcdf.cpp b/tools/thornsds_db1/db1_to_netcdf.cpp
index 3ac1dd6..0aeb722 100644
--- a/tools/thornsds_db1/db1_to_netcdf.cpp
+++ b/tools/thornsds_db1/db1_to_netcdf.cpp
@@ -124,7 +124,11 @@ int main (int argc, char *argv[])
   float sh = 42164.0;
 
   NcFile ncf ( outname , NcFile::Replace );
-  if (! ncf.is_valid()) return -1;
+  if (! ncf.is_valid())
+  {
+    std::cerr << "Cannot create " << outname << std::endl;
+    return -1;
+  }
 
   // Fill arrays on creation
   ncf.set_fill(NcFile::Fill);
-- 
2.43.0

