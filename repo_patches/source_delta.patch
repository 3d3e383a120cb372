From c77b3b2a7eecd0d51ed8a9f1981e4a65c644bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:03 +0000
Subject: [PATCH 01/35] fix: gx:Playlist adopts its tour primitives like every
 other element list

---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From 43c69c910742ff87e3e2db9a0bc2e9cbb55a52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:03 +0000
Subject: [PATCH 02/35] fix: write xal:LocalityName when an xal:Locality is
 serialized

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From 66b415529913dc9cb4ee5de593a31af7acaf65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:03 +0000
Subject: [PATCH 03/35] fix: write a Document's single StyleSelector when one
 is set

---
 src/kml/dom/document.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/document.cc b/src/kml/dom/document.cc
index cf1fa50..2291537 100644
--- a/src/kml/dom/document.cc
+++ b/src/kml/dom/document.cc
@@ -53,6 +53,9 @@ void Document::AddElement(const ElementPtr& element) {
 void Document::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
   Feature::SerializeBeforeStyleSelector(serializer);
+  if (has_styleselector()) {
+    serializer.SaveElementGroup(get_styleselector(), Type_StyleSelector);
+  }
   serializer.SaveElementGroupArray(styleselector_array_, Type_StyleSelector);
   Feature::SerializeAfterStyleSelector(serializer);
   serializer.SaveElementArray(schema_array_);
-- 
2.43.0


From e74cd349804e21c63db0727c165fc66282942e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:03 +0000
Subject: [PATCH 04/35] fix: keep unknown attributes and children of
 coordinates when serialized

---
 src/kml/dom/geometry.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..09f2424 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -181,14 +181,12 @@ void Coordinates::AddElement(const ElementPtr& element) {
 }
 
 void Coordinates::Serialize(Serializer& serializer) const {
-  Attributes dummy;
-  serializer.BeginById(Type(), dummy);
+  ElementSerializer element_serializer(*this, serializer);
   serializer.BeginElementArray(Type(), coordinates_array_.size());
   for (size_t i = 0; i < coordinates_array_.size(); ++i) {
     serializer.SaveVec3(coordinates_array_[i]);
   }
   serializer.EndElementArray(Type_coordinates);
-  serializer.End();
 }
 
 void Coordinates::Accept(Visitor* visitor) {
-- 
2.43.0


From 40e63315f8a9fcd49d21f693e208ed279087bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 05/35] fix: gx:SimpleArrayField is not confused with
 SimpleField

AsGxSimpleArrayField accepted a plain SimpleField because GxSimpleArrayField
inherited ElementType() and the cast then read it as the wrong class.
---
 src/kml/dom/schema.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..146aae5 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -110,6 +110,7 @@ class GxSimpleArrayField : public SimpleField {
   virtual bool IsA(KmlDomType type) const {
     return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
   }
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
 
   // Visitor API methods, see visitor.h.
   virtual void Accept(Visitor* visitor);
-- 
2.43.0


From c15c3ef544f70548aad6bd886b8fad2eebb89c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 06/35] fix: coordinate tuples of any length, separator or
 spacing are read safely

ParseVec3 copied numbers into fixed 1024 byte buffers and looped for ever on
text holding no number; newline separated tuples lost their longitude.
---
 src/kml/dom/geometry.cc | 126 +++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 74 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 09f2424..18947d2 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,33 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+// This returns a pointer to the start of the next number in the given string,
+// or to its end if there is none.  Optionally stop at a line break.
+static const char* SkipToNumber(const char* cstr, bool stop_at_newline) {
+  while (*cstr && *cstr != '-' && !isdigit(static_cast<unsigned char>(*cstr)) &&
+         !(*cstr == '.' && isdigit(static_cast<unsigned char>(cstr[1]))) &&
+         !(stop_at_newline && *cstr == '\n')) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+// This returns a pointer to the end of the coordinate at the given position: a
+// coordinate is ended by whitespace, a comma or the end of the string.
+static const char* SkipCoordinate(const char* cstr) {
+  while (*cstr && *cstr != ',' && !isspace(static_cast<unsigned char>(*cstr))) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+static const char* SkipSpace(const char* cstr) {
+  while (isspace(static_cast<unsigned char>(*cstr))) {
+    ++cstr;
+  }
+  return cstr;
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,93 +108,44 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
-  if (!cstr || !vec) {  // Not much to do w/o input or output.
+  if (!cstr || !nextp || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
-    }
-    ++cstr;  ++k;
+  cstr = SkipToNumber(cstr, false);
+  if (!*cstr) {
+    *nextp = const_cast<char*>(cstr);
+    return false;
   }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
+  const char* first = cstr;
+  cstr = SkipCoordinate(cstr);
+  double longitude = 0.0;
+  kmlbase::StringToDouble(string(first, cstr - first), &longitude);
+  vec->set(0, longitude);
+
+  first = cstr = SkipToNumber(cstr, true);
+  cstr = SkipCoordinate(cstr);
   double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
+  kmlbase::StringToDouble(string(first, cstr - first), &latitude);
   vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
-      }
-      ++cstr;  ++k;
-    }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
+
+  const char* comma = SkipSpace(cstr);
+  if (*comma == ',') {
+    first = SkipSpace(comma + 1);
+    cstr = SkipCoordinate(first);
+    double altitude = 0.0;
+    if (kmlbase::StringToDouble(string(first, cstr - first), &altitude)) {
       vec->set(2, altitude);
     }
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
-  return done;
+  *nextp = const_cast<char*>(SkipToNumber(cstr, false));
+  return true;
 }
 
 // The char_data is everything between <coordinates> elements including
 // leading and trailing whitespace.
 void Coordinates::Parse(const string& char_data) {
-  const char* cstr = char_data.c_str();
-  const char* endp = cstr + char_data.size();
-  char* next = const_cast<char*>(cstr);
-  while (next != endp) {
+  char* next = const_cast<char*>(char_data.c_str());
+  while (*next) {
     Vec3 vec;
     if (ParseVec3(next, &next, &vec)) {
       coordinates_array_.push_back(vec);
-- 
2.43.0


From cfefd0f26cab8a0dce78c94b52a866162c25fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 07/35] fix: text holding CDATA markers is escaped so that it
 reads back

The sequential replacement escaped only the first occurrence of each character
and "]]>" ended the CDATA section early.
---
 src/kml/dom/serializer.cc | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..24fc56f 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -37,13 +37,29 @@ using kmlbase::ToString;
 namespace kmldom {
 
 static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
+  string escaped;
+  for (size_t i = 0; i < xml.size(); ++i) {
+    switch (xml[i]) {
+      case '&':
+        escaped += "&amp;";
+        break;
+      case '<':
+        escaped += "&lt;";
+        break;
+      case '>':
+        escaped += "&gt;";
+        break;
+      case '\'':
+        escaped += "&apos;";
+        break;
+      case '"':
+        escaped += "&quot;";
+        break;
+      default:
+        escaped += xml[i];
+    }
+  }
+  return escaped;
 }
 
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
@@ -56,8 +72,10 @@ Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
-  // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
+  // entity-replace any reserved characters. The same goes for text which would
+  // end a CDATA section early.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 6a91892cfa07ccfbf313347aca0d8ce82e8ae057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 08/35] fix: attribute values are escaped when written,
 unpaired items ignored

---
 src/kml/base/attributes.cc | 39 ++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..052e50d 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -61,9 +61,8 @@ bool Attributes::Parse(const char** attrs) {
 }
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
-  for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
-      break;
+  // Quietly ignore unpaired last item.
+  for (size_t i = 0; i + 1 < attrs.size(); i += 2) {
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
     attributes_map_[attr_name] = attr_val;
@@ -71,6 +70,38 @@ bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   return true;
 }
 
+// This appends the given attribute value with the characters which may not
+// appear verbatim within a quoted XML attribute value escaped.
+static void AppendAttributeValue(const string& value, string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&':
+        *output += "&amp;";
+        break;
+      case '<':
+        *output += "&lt;";
+        break;
+      case '>':
+        *output += "&gt;";
+        break;
+      case '"':
+        *output += "&quot;";
+        break;
+      case '\t':
+        *output += "&#9;";
+        break;
+      case '\n':
+        *output += "&#10;";
+        break;
+      case '\r':
+        *output += "&#13;";
+        break;
+      default:
+        *output += value[i];
+    }
+  }
+}
+
 void Attributes::Serialize(string* output) const {
   if (output) {
     StringMapIterator iter = CreateIterator();
@@ -78,7 +109,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      AppendAttributeValue(iter.Data().second, output);
       *output += "\"";
     }
   }
-- 
2.43.0


From e36359fd7c109b4714985bab24cc4e5dcef0ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 09/35] fix: entity expansion replaces every occurrence,
 splitting skips separators

---
 src/kml/base/string_util.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..22481ec 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -46,15 +46,14 @@ string CreateExpandedStrings(const string& in,
   StringMap::const_iterator itr = string_map.begin();
   for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
     string candidate(start + itr->first + end);
+    if (candidate.empty()) {
+      continue;
+    }
     size_t start_pos = out.find(candidate);
     while (start_pos != string::npos) {
       out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
-        break;
-      }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+      // Continue after the replacement: the value may itself contain the key.
+      start_pos = out.find(candidate, start_pos + itr->second.size());
     }
   }
   return out;
@@ -62,11 +61,15 @@ string CreateExpandedStrings(const string& in,
 
 void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
+  if (split_string.empty()) {
+    output->push_back(input);
+    return;
+  }
   string iter = input;
   size_t separator;
   while ((separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
-- 
2.43.0


From c4328247699b63c22b4ad005037937b1f69e6ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:39 +0000
Subject: [PATCH 10/35] fix: keep known elements found inside coordinates,
 Snippet and SimpleData

---
 src/kml/dom/extendeddata.cc | 2 +-
 src/kml/dom/geometry.cc     | 5 +++++
 src/kml/dom/snippet.cc      | 7 ++++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/extendeddata.cc b/src/kml/dom/extendeddata.cc
index 83c2d28..bf91304 100644
--- a/src/kml/dom/extendeddata.cc
+++ b/src/kml/dom/extendeddata.cc
@@ -69,7 +69,7 @@ void SimpleData::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  if (element->Type() == Type_SimpleData) {
+  if (element.get() == this) {
     set_text(get_char_data());
   } else {
     // We have a known KML element inside <SimpleData> and need to store it.
diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 18947d2..de4346a 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -155,6 +155,11 @@ void Coordinates::Parse(const string& char_data) {
 
 // Coordinates essentially parses itself.
 void Coordinates::AddElement(const ElementPtr& element) {
+  if (element && element.get() != this) {
+    // We have a known KML element inside <coordinates> and need to store it.
+    Element::AddElement(element);
+    return;
+  }
   Parse(get_char_data());
 }
 
diff --git a/src/kml/dom/snippet.cc b/src/kml/dom/snippet.cc
index e5b104a..2f0cc44 100644
--- a/src/kml/dom/snippet.cc
+++ b/src/kml/dom/snippet.cc
@@ -64,7 +64,12 @@ void SnippetCommon::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  set_text(get_char_data());
+  if (element.get() == this) {
+    set_text(get_char_data());
+  } else {
+    // We have a known KML element inside <Snippet> and need to store it.
+    Element::AddElement(element);
+  }
 }
 
 void SnippetCommon::Serialize(Serializer& serializer) const {
-- 
2.43.0


From 891c7360bd0aaf2384471df0b6edb0562a85fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:38 +0000
Subject: [PATCH 11/35] fix: gx:coord and gx:angles separated by any white
 space are read

An empty token (two blanks, a newline) left the number uninitialised.
---
 src/kml/dom/geometry.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index de4346a..1714f0e 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -30,6 +30,8 @@
 #include <cctype>
 #include <cstdlib>
 #include <cstring>
+#include <locale>
+#include <sstream>
 #include <string>
 #include "kml/dom/geometry.h"
 #include "kml/base/attributes.h"
@@ -536,16 +538,12 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   if (!out) {
     return;
   }
-  // TODO: this is a little heavy. Optimization along the lines of
-  // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  std::istringstream iss(char_data);
+  iss.imbue(std::locale::classic());
+  double d;
+  for (int i = 0; i < 3 && iss >> d; ++i) {
+    vec.set(i, d);
   }
   out->push_back(vec);
 }
-- 
2.43.0


From 7c142eec13beda5ff13c273d714adece83f0fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 12/35] fix: visiting a hotSpot calls VisitHotSpot

---
 src/kml/dom/hotspot.cc | 4 ++++
 src/kml/dom/hotspot.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/kml/dom/hotspot.cc b/src/kml/dom/hotspot.cc
index 94dc5b1..bdf8cfb 100644
--- a/src/kml/dom/hotspot.cc
+++ b/src/kml/dom/hotspot.cc
@@ -31,4 +31,8 @@ HotSpot::HotSpot() {}
 
 HotSpot::~HotSpot() {}
 
+void HotSpot::Accept(Visitor* visitor) {
+  visitor->VisitHotSpot(HotSpotPtr(this));
+}
+
 }  // end namespace kmldom
diff --git a/src/kml/dom/hotspot.h b/src/kml/dom/hotspot.h
index 9ac1392..3a4f871 100644
--- a/src/kml/dom/hotspot.h
+++ b/src/kml/dom/hotspot.h
@@ -33,6 +33,7 @@
 namespace kmldom {
 
 class Serializer;
+class Visitor;
 
 // <hotSpot>
 class HotSpot : public Vec2 {
@@ -43,6 +44,9 @@ class HotSpot : public Vec2 {
     return type == Type_hotSpot || Vec2::IsA(type);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void Accept(Visitor* visitor);
+
  private:
   friend class KmlFactory;
   HotSpot();
-- 
2.43.0


From 41ec45adb41b4cd3d4439320ab7bcf62a5cb4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 13/35] fix: visiting a Feature reaches its atom:author,
 atom:link and xal:AddressDetails

---
 src/kml/dom/feature.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kml/dom/feature.cc b/src/kml/dom/feature.cc
index 361eed0..c9c32f8 100644
--- a/src/kml/dom/feature.cc
+++ b/src/kml/dom/feature.cc
@@ -193,6 +193,15 @@ void Feature::Serialize(Serializer& serializer) const {
 
 void Feature::AcceptChildren(VisitorDriver* driver) {
   Object::AcceptChildren(driver);
+  if (has_atomauthor()) {
+    driver->Visit(get_atomauthor());
+  }
+  if (has_atomlink()) {
+    driver->Visit(get_atomlink());
+  }
+  if (has_xaladdressdetails()) {
+    driver->Visit(get_xaladdressdetails());
+  }
   if (has_snippet()) {
     driver->Visit(get_snippet());
   }
-- 
2.43.0


From 18fa9c5f9b7bee6a1608b1c2d2737bacf448c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 14/35] fix: visiting atom and xal elements reaches their
 children

---
 src/kml/dom/atom.cc | 18 ++++++++++++++++++
 src/kml/dom/atom.h  |  9 +++++++++
 src/kml/dom/xal.cc  | 41 +++++++++++++++++++++++++++++++++++++++++
 src/kml/dom/xal.h   | 15 +++++++++++++++
 4 files changed, 83 insertions(+)

diff --git a/src/kml/dom/atom.cc b/src/kml/dom/atom.cc
index 6a36481..f0a9311 100644
--- a/src/kml/dom/atom.cc
+++ b/src/kml/dom/atom.cc
@@ -224,6 +224,12 @@ void AtomCommon::Serialize(Serializer& serializer) const {
   serializer.SaveElementArray(link_array_);
 }
 
+void AtomCommon::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  Element::AcceptRepeated<AtomCategoryPtr>(&category_array_, driver);
+  Element::AcceptRepeated<AtomLinkPtr>(&link_array_, driver);
+}
+
 // <atom:entry>
 AtomEntry::AtomEntry()
   : has_summary_(false) {
@@ -259,6 +265,13 @@ void AtomEntry::Serialize(Serializer& serializer) const {
   }
 }
 
+void AtomEntry::AcceptChildren(VisitorDriver* driver) {
+  AtomCommon::AcceptChildren(driver);
+  if (has_content()) {
+    driver->Visit(get_content());
+  }
+}
+
 // <atom:feed>
 AtomFeed::AtomFeed() {
   set_xmlns(kmlbase::XMLNS_ATOM);
@@ -284,6 +297,11 @@ void AtomFeed::Serialize(Serializer& serializer) const {
   serializer.SaveElementArray(entry_array_);
 }
 
+void AtomFeed::AcceptChildren(VisitorDriver* driver) {
+  AtomCommon::AcceptChildren(driver);
+  Element::AcceptRepeated<AtomEntryPtr>(&entry_array_, driver);
+}
+
 // <atom:link>
 AtomLink::AtomLink()
   : has_href_(false),
diff --git a/src/kml/dom/atom.h b/src/kml/dom/atom.h
index 808a351..99db534 100644
--- a/src/kml/dom/atom.h
+++ b/src/kml/dom/atom.h
@@ -147,6 +147,9 @@ class AtomCommon : public Element {
     return link_array_[index];
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  protected:
   AtomCommon();
   void AddElement(const ElementPtr& element);
@@ -308,6 +311,9 @@ class AtomEntry : public AtomCommon {
     set_content(NULL);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   friend class KmlFactory;
   AtomEntry();
@@ -344,6 +350,9 @@ class AtomFeed : public AtomCommon {
     return entry_array_[index];
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   friend class KmlFactory;
   AtomFeed();
diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index cc8ea07..8c16eb3 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -68,6 +68,13 @@ XalAdministrativeArea::XalAdministrativeArea()
   set_xmlns(kmlbase::XMLNS_XAL);
 }
 
+void XalAddressDetails::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_country()) {
+    driver->Visit(get_country());
+  }
+}
+
 void XalAdministrativeArea::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
@@ -102,6 +109,16 @@ void XalAdministrativeArea::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalAdministrativeArea::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_locality()) {
+    driver->Visit(get_locality());
+  }
+  if (has_subadministrativearea()) {
+    driver->Visit(get_subadministrativearea());
+  }
+}
+
 // <xal:Country>
 XalCountry::XalCountry()
     : has_countrynamecode_(false) {
@@ -136,6 +153,13 @@ void XalCountry::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalCountry::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_administrativearea()) {
+    driver->Visit(get_administrativearea());
+  }
+}
+
 // <xal:Locality>
 XalLocality::XalLocality()
     : has_localityname_(false) {
@@ -175,6 +199,16 @@ void XalLocality::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalLocality::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_thoroughfare()) {
+    driver->Visit(get_thoroughfare());
+  }
+  if (has_postalcode()) {
+    driver->Visit(get_postalcode());
+  }
+}
+
 // <xal:PostalCode>
 XalPostalCode::XalPostalCode()
     : has_postalcodenumber_(false) {
@@ -236,6 +270,13 @@ void XalSubAdministrativeArea::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalSubAdministrativeArea::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_locality()) {
+    driver->Visit(get_locality());
+  }
+}
+
 // <xal:Thoroughfare>
 XalThoroughfare::XalThoroughfare()
     : has_thoroughfarename_(false),
diff --git a/src/kml/dom/xal.h b/src/kml/dom/xal.h
index e58b02d..942dd63 100644
--- a/src/kml/dom/xal.h
+++ b/src/kml/dom/xal.h
@@ -69,6 +69,9 @@ class XalAddressDetails : public BasicElement<Type_XalAddressDetails> {
   }
   void clear_country() { set_country(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalAddressDetails();
   XalCountryPtr country_;
@@ -121,6 +124,9 @@ class XalAdministrativeArea : public BasicElement<Type_XalAdministrativeArea> {
   }
   void clear_subadministrativearea() { set_subadministrativearea(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalAdministrativeArea();
   bool has_administrativeareaname_;
@@ -162,6 +168,9 @@ class XalCountry : public BasicElement<Type_XalCountry> {
   }
   void clear_administrativearea() { set_administrativearea(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalCountry();
   bool has_countrynamecode_;
@@ -212,6 +221,9 @@ class XalLocality : public BasicElement<Type_XalLocality> {
   }
   void clear_postalcode() { set_postalcode(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalLocality();
   bool has_localityname_;
@@ -287,6 +299,9 @@ class XalSubAdministrativeArea :
   }
   void clear_locality() { set_locality(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalSubAdministrativeArea();
   bool has_subadministrativeareaname_;
-- 
2.43.0


From 690de9384aa0bb27f944c6c56f513212ee3bd805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:38 +0000
Subject: [PATCH 15/35] fix: an enum value out of range is written as the empty
 text

---
 src/kml/dom/xsd.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..8b4cbb4 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,14 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      // The list is NULL terminated: there may be no such value.
+      const char** enum_value_item = kKml22Enums[i].enum_value_list;
+      for (; *enum_value_item; ++enum_value_item, --enum_id) {
+        if (enum_id == 0) {
+          return *enum_value_item;
+        }
+      }
+      return string();
     }
   }
   return string();
-- 
2.43.0


From b3388c4dfba4f93bbbbdf131e3e94c894d902ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:32 +0000
Subject: [PATCH 16/35] fix: a colour text with a prefix and fewer than 8
 digits was read past its end

---
 src/kml/base/color32.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..4bc5498 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -137,7 +137,10 @@ class Color32 {
     if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
+    size_t length = color_abgr.size() - offset;
+    if (length > 8) {
+      length = 8;
+    }
     for(size_t i = offset; i < length + offset; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
-- 
2.43.0


From 16e8c4e31fcab48c596669eb8942795eb0849165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:24 +0000
Subject: [PATCH 17/35] fix: times before 1970 were converted as if in 1970

---
 src/kml/base/date_time.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..6cc981c 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -70,6 +70,9 @@ time_t DateTime::GetTimeT() const {
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  // Times before the epoch are negative.
+  for (int year = tm_.tm_year; year < 70; ++year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
-- 
2.43.0


From dbdbc0cc633217dc3f65a5cf58dd3cbfa2c84508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:51 +0000
Subject: [PATCH 18/35] fix: a description within an unknown element upset the
 parse of later ones

---
 src/kml/dom/kml_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..6335ae6 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -210,7 +210,8 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From b58a94b93eb1ee425e05374b1f01ce06c0b5c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:51 +0000
Subject: [PATCH 19/35] fix: an old-style Schema named after a known element
 dereferenced null

---
 src/kml/dom/kml_handler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 6335ae6..49cd305 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -410,7 +410,7 @@ void KmlHandler::HandleOldSchemaEndElement(
     const SchemaPtr& schema,
     const string& old_schema_name,
     StringVector* simplefield_name_vec) {
-  if (!simplefield_name_vec) {
+  if (!schema || !simplefield_name_vec) {
     return;
   }
   schema->set_id(old_schema_name + "_id");
@@ -431,6 +431,9 @@ void KmlHandler::HandleOldSchemaParentEndElement(
     const string& old_schema_name,
     const KmlFactory& kml_factory,
     const std::vector<SimpleDataPtr> simpledata_vec) {
+  if (!placemark) {
+    return;
+  }
   // We've reached the closing tag of the old placemark substitute
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
-- 
2.43.0


From ebedf6b08af06ca47f6196a08181f22137898152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:51 +0000
Subject: [PATCH 20/35] fix: text and attributes kept of an unknown element
 were not escaped

---
 src/kml/dom/kml_handler.cc | 42 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 49cd305..e36dfaf 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -321,6 +321,39 @@ bool KmlHandler::CallAddChildObservers(
   return true;
 }
 
+// The XML of an unknown element is kept as text, hence any character data and
+// attribute values within it must be escaped again.
+static void AppendEscaped(const string& value, bool is_attribute,
+                          string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&':
+        output->append("&amp;");
+        break;
+      case '<':
+        output->append("&lt;");
+        break;
+      case '>':
+        output->append("&gt;");
+        break;
+      case '"':
+        output->append("&quot;");
+        break;
+      case '\r':
+        output->append("&#13;");
+        break;
+      case '\n':
+        output->append(is_attribute ? "&#10;" : "\n");
+        break;
+      case '\t':
+        output->append(is_attribute ? "&#9;" : "\t");
+        break;
+      default:
+        output->push_back(value[i]);
+    }
+  }
+}
+
 // Note the handling of char data w.r.t. unknown elements. If we are within
 // a known element that cannot contain char data, setting it in EndElement is
 // a no-op. For known elements within unknown elements, everything is treated
@@ -329,7 +362,12 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 void KmlHandler::CharData(const string& s) {
-  char_data_.top().append(s);
+  // The markup permitted within a <description> is kept as it is.
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    AppendEscaped(s, false, &char_data_.top());
+  } else {
+    char_data_.top().append(s);
+  }
 }
 
 // As with STL pop() methods this is (potentially) destructive.  If the
@@ -356,7 +394,7 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    AppendEscaped(atts.at(i+1), true, &top);
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From 6bc74e8b179733a9c3002d92bf0b6a7cbdab71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:16 +0000
Subject: [PATCH 21/35] fix: parsing the empty text gives an error message

---
 src/kml/base/expat_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..a8bc9b3 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,7 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, XML_TRUE);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From 4bcb3965ee58e48263711de1403e4bf53a8a76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:41 +0000
Subject: [PATCH 22/35] fix: copying an element whose text precedes a misplaced
 child keeps its text

---
 src/kml/engine/clone.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 91069e9..0538fc9 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -59,6 +59,8 @@ class ElementReplicator : public kmldom::Serializer {
 
   // Serializer::BeginById() is called at the start of a complex element.
   virtual void BeginById(int type_id, const Attributes& attributes) {
+    // The character data seen so far belongs to the parent, not to this child.
+    SetCharData();
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr clone = KmlFactory::GetFactory()->CreateElementById(id);
     clone->ParseAttributes(attributes.Clone());
@@ -69,19 +71,7 @@ class ElementReplicator : public kmldom::Serializer {
   virtual void End() {
     // BeginById() always puts something on the stack so this is always safe.
     ElementPtr child = clone_stack_.top();
-    // This mimics the part of KmlHandler::EndElement() which special cases
-    // those complex elements which have character data.
-    // TODO: refactor the special-casing in KmlHandler::EndElement() such that
-    // it can be used from here.  Using child->AddElement(child) is dangerous.
-    if (!char_data_.empty()) {
-      child->set_char_data(char_data_);
-      char_data_.clear();
-      // NOTE: This very much expects this to mean "parse yourself".  If
-      // this falls through to Element::AddChild() this will make the element
-      // a child of itself by putting itself in the misplaced elements array.
-      // TODO: see above TODO
-      child->AddElement(child);
-    }
+    SetCharData();
     // Two or more items on the stack implies the top is a child to be added
     // to the parent above it on the stack.
     if (clone_stack_.size() > 1) {
@@ -152,6 +142,24 @@ class ElementReplicator : public kmldom::Serializer {
   }
 
  private:
+  // Set any pending character data in the element on the top of the stack.
+  void SetCharData() {
+    // This mimics the part of KmlHandler::EndElement() which special cases
+    // those complex elements which have character data.
+    // TODO: refactor the special-casing in KmlHandler::EndElement() such that
+    // it can be used from here.  Using child->AddElement(child) is dangerous.
+    if (!char_data_.empty()) {
+      ElementPtr element = clone_stack_.top();
+      element->set_char_data(char_data_);
+      char_data_.clear();
+      // NOTE: This very much expects this to mean "parse yourself".  If
+      // this falls through to Element::AddChild() this will make the element
+      // a child of itself by putting itself in the misplaced elements array.
+      // TODO: see above TODO
+      element->AddElement(element);
+    }
+  }
+
   // This stack operates akin to the stack in the parser.
   std::stack<ElementPtr> clone_stack_;
   string char_data_;
-- 
2.43.0


From c17025e490b9ac42247d38fa7e2a0df7fa8da3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:09 +0000
Subject: [PATCH 23/35] fix: merging fields sets the text of the target and
 leaves misplaced children out

---
 src/kml/engine/merge.cc | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..50f47e8 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -49,12 +49,18 @@ class FieldMerger : public Serializer {
  public:
   // The target is expected to be a complex element.
   FieldMerger(ElementPtr target)
-      : target_(target) {}
+      : target_(target), depth_(0), same_type_(false) {}
 
   virtual ~FieldMerger() {}
 
   // Set the attributes in the target.
   virtual void BeginById(int type_id, const Attributes& attributes) {
+    // A misplaced complex child is serialized in place: it is not a field.
+    if (++depth_ > 1) {
+      return;
+    }
+    // Only a target of the same type has a place for the source's text.
+    same_type_ = type_id == target_->Type();
     // ParseAttributes reflects the state of the passed attributes, so we
     // preserve the state of the element's attributes here ourselves and into
     // our private copy of the state merge the passed attributes and then
@@ -73,6 +79,10 @@ class FieldMerger : public Serializer {
     }
   }
 
+  virtual void End() {
+    --depth_;
+  }
+
   // The default implementation recurses on complex children.  FieldMerger is
   // only interested in the immediate simple children of the serialized element
   // so its implementation is empty to prevent recursing on complex children.
@@ -81,13 +91,30 @@ class FieldMerger : public Serializer {
 
   // Save a lon,lat,alt tuple as appears within <coordinates>.
   virtual void SaveVec3(const kmlbase::Vec3& vec3) {
+    if (depth_ > 1) {
+      return;
+    }
     if (CoordinatesPtr coordinates = AsCoordinates(target_)) {
       coordinates->add_vec3(vec3);
     }
   }
 
+  // This sets the text of those complex elements which have it.  As in the
+  // parser such an element added to itself takes its text from its char data.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    // The text may be quoted, the unparsed XML of unknown elements never is.
+    if (depth_ > 1 || !same_type_ || !maybe_quote || content.empty()) {
+      return;
+    }
+    target_->set_char_data(content);
+    target_->AddElement(target_);
+  }
+
   // This sets the given field in the target.
   virtual void SaveStringFieldById(int type_id, string value) {
+    if (depth_ > 1) {
+      return;
+    }
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr field = KmlFactory::GetFactory()->CreateFieldById(id);
     field->set_char_data(value);
@@ -101,6 +128,8 @@ class FieldMerger : public Serializer {
 
  private:
   ElementPtr target_;
+  int depth_;
+  bool same_type_;
 };
 
 // This is the implementation of the public API function to merge the
-- 
2.43.0


From 120e2a77a7a99b477280f25ab2ca65d06b714f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:41 +0000
Subject: [PATCH 24/35] fix: a split style gets the id its feature refers to

An inline style with an id of its own kept that id when it was moved to
the Document, while the styleUrl of its feature named the generated one.
---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..504557f 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -83,12 +83,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Create an empty StyleSelector of the child's type.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // The merge brings any id of the child along: set the id last.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From 5f434ce3149871e40fac797738f2a4ec0ff96ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:41 +0000
Subject: [PATCH 25/35] fix: a split style does not take the id of a shared
 style of the file

Only the ids generated by the splitter itself were checked for collision,
so a feature could end up with the style of an unrelated shared style.
---
 src/kml/engine/style_splitter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 504557f..0565058 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -100,6 +100,16 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
       }
     }
   }
+  // Remember the id of any shared style already in a <Document> such that none
+  // of the ids generated here is the same.
+  if (!in_update_ && parent->IsA(kmldom::Type_Document)) {
+    if (kmldom::StyleSelectorPtr styleselector =
+        kmldom::AsStyleSelector(child)) {
+      if (styleselector->has_id()) {
+        (*shared_style_map_)[styleselector->get_id()] = styleselector;
+      }
+    }
+  }
   // Falling through any of the conditions above means no action is taken
   // to interfere with this child being added to this parent.
   // Parsing of <Update> is complete so disable guard.
-- 
2.43.0


From c7b5f6d69da613e8f6ddbbc09c708e1a34205c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:41 +0000
Subject: [PATCH 26/35] fix: a style without an id is not a shared style

It was stored in the shared style map under the empty id.
---
 src/kml/engine/shared_style_parser_observer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..311e1cf 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -66,9 +66,9 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
             // TODO: provide means to send back an and error string with id
             return false;  // Duplicate id, fail parse.
           }
+          // No such mapping so save it, and "last one wins" on non-strict parse.
+          (*shared_style_map_)[ss->get_id()] = ss;
         }
-        // No such mapping so save it, and "last one wins" on non-strict parse.
-        (*shared_style_map_)[ss->get_id()] = ss;
       }
     }
     return true;  // Not a duplicate id, keep parsing.
-- 
2.43.0


From e09f900cdf7655ae36b9511ab614c954c194c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:22 +0000
Subject: [PATCH 27/35] fix: ClearIds clears every id, also where several
 objects share one

The id map holds only the last object of an id, so the others kept theirs.
---
 src/kml/engine/id_mapper.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..beaf414 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -71,12 +71,17 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 const ElementPtr& ClearIds(const ElementPtr& root) {
   // Get all objects with an id.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_vector;
+  MapIds(root, &object_id_map, &dup_id_vector);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  // The map has only the last of any objects of the same id.
+  for (size_t i = 0; i < dup_id_vector.size(); ++i) {
+    AsObject(dup_id_vector[i])->clear_id();
+  }
   return root;
 }
 
-- 
2.43.0


From 3eafe56444d01c7d2041634710bfae534e266ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:11 +0000
Subject: [PATCH 28/35] fix: a Change does not change the id of its target

MergeElements copies the id of the source object, so an object with both an id
and a targetId in a Change made the target unreachable by its own id.
---
 src/kml/engine/update_processor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 16c9a37..16f2e09 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -77,7 +77,15 @@ void UpdateProcessor::ProcessUpdateChange(const ChangePtr& change) {
     string targetid;
     if (GetTargetId(source_object, &targetid)) {
       if (ObjectPtr target_object = kml_file_.GetObjectById(targetid)) {
+        // The id of the target is not changed, whatever id the source has.
+        const bool has_id = target_object->has_id();
+        const string id = target_object->get_id();
         MergeElements(source_object, target_object);
+        if (has_id) {
+          target_object->set_id(id);
+        } else {
+          target_object->clear_id();
+        }
         // It's easier to just clear the target's targetId= attribute than
         // to teach MergeElements() how to avoid copying targetId from
         // source to target.  This does imply that targetId is treated as
-- 
2.43.0


From b214555e8683775dd58fa0c278ba11b87dd9641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:11 +0000
Subject: [PATCH 29/35] fix: any white space is permitted around the comma of a
 coordinate tuple

A newline between the longitude and the latitude split the tuple in two.
---
 src/kml/dom/geometry.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 1714f0e..21876ed 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -124,13 +124,17 @@ bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
   kmlbase::StringToDouble(string(first, cstr - first), &longitude);
   vec->set(0, longitude);
 
+  const char* comma = SkipSpace(cstr);
+  if (*comma == ',') {  // Any whitespace is permitted around the comma.
+    cstr = SkipSpace(comma + 1);
+  }
   first = cstr = SkipToNumber(cstr, true);
   cstr = SkipCoordinate(cstr);
   double latitude = 0.0;
   kmlbase::StringToDouble(string(first, cstr - first), &latitude);
   vec->set(1, latitude);
 
-  const char* comma = SkipSpace(cstr);
+  comma = SkipSpace(cstr);
   if (*comma == ',') {
     first = SkipSpace(comma + 1);
     cstr = SkipCoordinate(first);
-- 
2.43.0


From a596e2fa460041304377ee73be47452184ed0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:05 +0000
Subject: [PATCH 30/35] fix: an archive entry with a name of 1024 characters or
 more is not listed (its name was read past the end of the buffer)

---
 src/kml/base/zip_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..f28d877 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -100,7 +100,8 @@ ZipFile::ZipFile(const string& data)
       do {
         static char buf[1024];
         if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
-              0, 0, 0, 0) == UNZ_OK) {
+              0, 0, 0, 0) == UNZ_OK &&
+            finfo.size_filename < sizeof(buf)) {  // Else not terminated.
           zipfile_toc_.push_back(buf);
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
-- 
2.43.0


From 3affeb1b7f6ae61f0ef21c5360cb72a83df1e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:05 +0000
Subject: [PATCH 31/35] fix: an archive entry whose data fail the checksum is
 not handed out

---
 src/kml/base/zip_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index f28d877..79ad04c 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -209,7 +209,8 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   }
   char* filedata = new char[nbytes];
   if (libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), filedata,
-                         nbytes) == static_cast<int>(nbytes)) {
+                         nbytes) == static_cast<int>(nbytes) &&
+      libkml_unzCloseCurrentFile(unzfilehelper->get_unzfile()) == UNZ_OK) {
     output->assign(filedata, nbytes);
     delete [] filedata;
     return true;
-- 
2.43.0


From 0b191348f9b4fd668287ce2de4eb5b4e2610d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:05 +0000
Subject: [PATCH 32/35] fix: the path of an Href with a scheme ends at the
 fragment

---
 src/kml/engine/href.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..94efd61 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -59,12 +59,12 @@ void Href::Parse(const string& href) {
     path_start = 0;
   }
   size_t path_end = href.size();
-  size_t pound = href.find_first_of('#');
+  size_t pound = href.find_first_of('#', path_start);
   if (pound != string::npos) {
     fragment_ = href.substr(pound + 1);
     path_end = pound;
   }
-  path_ = href.substr(path_start, path_end);
+  path_ = href.substr(path_start, path_end - path_start);
 }
 
 }  // end namespace kmlengine
-- 
2.43.0


From e96c12b617a2f1d30a6cf50b20c0b21447331704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:05 +0000
Subject: [PATCH 33/35] fix: a dead link into a KMZ no longer recurses for ever

---
 src/kml/engine/kmz_cache.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..745ba66 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -119,10 +119,16 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   if (!kmz_relative.get()) {
     return false;
   }
-  if (fetched_url) {
+  // The KMZ-relative reference is the last resort: when it names a file in a
+  // KMZ (possibly this one) there is nothing further to fall back to.
+  const bool fetched = kmz_relative->is_kmz() ?
+      Fetch(kmz_relative->get_kmz_url()) &&
+          FetchFromCache(kmz_relative.get(), content) :
+      DoFetch(kmz_relative.get(), content);
+  if (fetched && fetched_url) {
     *fetched_url = kmz_relative->get_url();
   }
-  return DoFetch(kmz_relative.get(), content);
+  return fetched;
 }
 
 bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
-- 
2.43.0


From f32d28aec94892eda06748793e38ad38fe246f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 34/35] fix: write a carriage return in a text as a character
 reference

An XML reader turns a carriage return left as it is into a newline, so a
text holding one did not read back as it was.
---
 src/kml/dom/serializer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index 24fc56f..334a61b 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -55,6 +55,9 @@ static string EnityEscapeXml(const string& xml) {
       case '"':
         escaped += "&quot;";
         break;
+      case '\r':  // Left as it is an XML reader turns it into a newline.
+        escaped += "&#13;";
+        break;
       default:
         escaped += xml[i];
     }
@@ -73,9 +76,11 @@ const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
   // entity-replace any reserved characters. The same goes for text which would
-  // end a CDATA section early.
+  // end a CDATA section early and for carriage returns, which do not survive
+  // as such in XML.
   if (value.find("<![CDATA[") != string::npos ||
-      value.find("]]>") != string::npos) {
+      value.find("]]>") != string::npos ||
+      value.find('\r') != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 0553891519b62f305db073caf8b678f235851b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 35/35] fix: do not cache data that make no item

NetCache::Fetch saved a null item: it was never found again, took the
place of the oldest good entry and was fetched anew each time.
---
 src/kml/base/net_cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..ce3d7e2 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,6 +129,9 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
+    if (!item) {
+      return NULL;  // The data fetched is not valid: do not cache it.
+    }
     if (!Save(url, item)) {  // This is basically an internal error.
       return NULL;
     }
-- 
2.43.0

