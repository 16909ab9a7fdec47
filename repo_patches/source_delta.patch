From 279686325b7faf6cb8c0bd52adced514aa26cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 01/28] fix: an empty stored translation must not be returned
 by translate()

---
 src/dictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..92cdd8c 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -124,7 +124,7 @@ std::string
 Dictionary::translate(const Entries& dict, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
-  if (i != dict.end() && !i->second.empty())
+  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
   {
     return i->second[0];
   }
-- 
2.43.0


From 405528ba40062f65ca9a2c329bd529a8a971504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 02/28] fix: a missing plural form must yield the plural source
 text unless the count is 1

---
 src/dictionary.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 92cdd8c..4e5463c 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -89,7 +89,10 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      return msgid;
+      if (count == 1) // default to english rules
+        return msgid;
+      else
+        return msgid_plural;
     }
 
     if (!msgstrs[n].empty())
-- 
2.43.0


From 38abf3dd65626d212e080335b95e6a0f0654150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 03/28] fix: recognise the Latvian plural rule and report its
 three forms

---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..60b5cf2 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -76,7 +76,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
-- 
2.43.0


From 06f595589eb82808a955c214d636bb590eb1ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 04/28] fix: the Slovenian plural rule has four forms

---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 60b5cf2..a58d790 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -82,7 +82,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;"] = PluralForms(3, plural3_sk);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_pl);
-    plural_forms["Plural-Forms:nplurals=3;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(3, plural3_sl);
+    plural_forms["Plural-Forms:nplurals=4;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(4, plural3_sl);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));"] = PluralForms(3, plural3_ro);
     plural_forms["Plural-Forms:nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);"] = PluralForms(4, plural4_sk);
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;"] = PluralForms(4, plural4_cs);
-- 
2.43.0


From c6125025af74597c920c67baca5838fffbf37b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 05/28] fix: recognise plural rules with and without the
 closing semicolon

---
 src/plural_forms.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index a58d790..abad951 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -93,8 +93,8 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n%1==0&&n%10==1&&n%100!=11?0:n%1==0&&n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%1==0&&(n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14))?2:3);"] = PluralForms(4, plural4_uk);
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1?0:(n%10>=2&&n%10<=4)&&(n%100<12||n%100>14)?1:n!=1&&(n%10>=0&&n%10<=1)||(n%10>=5&&n%10<=9)||(n%100>=12&&n%100<=14)?2:3);"] = PluralForms(4, plural4_pl);
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
-    plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
-    plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
+    plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4);"] = PluralForms(5, plural5_ga);
+    plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5;"]=PluralForms(6, plural6_ar);
   }
 
   // Remove spaces from string before lookup
@@ -103,6 +103,10 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
+  // The closing semicolon is optional
+  if (!space_less_str.empty() && space_less_str[space_less_str.size() - 1] != ';')
+    space_less_str += ';';
+
   PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
   if (it != plural_forms.end())
   {
-- 
2.43.0


From be1df427453eb71d794e066063a5c00351443d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 06/28] fix: plural and contextual lookups fall back like plain
 ones, in the same context

---
 include/tinygettext/dictionary.hpp | 11 +++++-
 src/dictionary.cpp                 | 61 ++++++++++++++++++------------
 2 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 958f4a3..e44ed0f 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,8 +43,15 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate(const Entries& dict, const std::string& msgid) const;
-  std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
+  // msgctxt is null for messages without a context
+  std::string translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const;
+  std::string translate_plural(const Entries& dict, const std::string* msgctxt,
+                               const std::string& msgid, const std::string& msgidplural, int num) const;
+
+  /** Result for a message this dictionary has no translation for */
+  std::string fallback(const std::string* msgctxt, const std::string& msgid) const;
+  std::string fallback_plural(const std::string* msgctxt,
+                              const std::string& msgid, const std::string& msgidplural, int num) const;
 
   bool m_has_fallback;
   Dictionary* m_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 4e5463c..60272df 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -74,11 +74,12 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
-  return translate_plural(entries, msgid, msgid_plural, num);
+  return translate_plural(entries, nullptr, msgid, msgid_plural, num);
 }
 
 std::string
-Dictionary::translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgid_plural, int count) const
+Dictionary::translate_plural(const Entries& dict, const std::string* msgctxt,
+                             const std::string& msgid, const std::string& msgid_plural, int count) const
 {
   Entries::const_iterator it = dict.find(msgid);
   if (it != dict.end())
@@ -89,19 +90,13 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      if (count == 1) // default to english rules
-        return msgid;
-      else
-        return msgid_plural;
+      return fallback_plural(msgctxt, msgid, msgid_plural, count);
     }
 
     if (!msgstrs[n].empty())
       return msgstrs[n];
     else
-      if (count == 1) // default to english rules
-        return msgid;
-      else
-        return msgid_plural;
+      return fallback_plural(msgctxt, msgid, msgid_plural, count);
   }
   else
   {
@@ -110,21 +105,35 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     for (it = dict.begin(); it != dict.end(); ++it)
       log_info << "'" << it->first << "'" << std::endl;
 
-    if (count == 1) // default to english rules
-      return msgid;
+    return fallback_plural(msgctxt, msgid, msgid_plural, count);
+  }
+}
+
+std::string
+Dictionary::fallback_plural(const std::string* msgctxt,
+                            const std::string& msgid, const std::string& msgid_plural, int count) const
+{
+  if (m_has_fallback)
+  {
+    if (msgctxt)
+      return m_fallback->translate_ctxt_plural(*msgctxt, msgid, msgid_plural, count);
     else
-      return msgid_plural;
+      return m_fallback->translate_plural(msgid, msgid_plural, count);
   }
+  else if (count == 1) // default to english rules
+    return msgid;
+  else
+    return msgid_plural;
 }
 
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
-  return translate(entries, msgid);
+  return translate(entries, nullptr, msgid);
 }
 
 std::string
-Dictionary::translate(const Entries& dict, const std::string& msgid) const
+Dictionary::translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
   if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
@@ -135,23 +144,30 @@ Dictionary::translate(const Entries& dict, const std::string& msgid) const
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
 
-    if (m_has_fallback) return m_fallback->translate(msgid);
-    else return msgid;
+    return fallback(msgctxt, msgid);
   }
 }
 
+std::string
+Dictionary::fallback(const std::string* msgctxt, const std::string& msgid) const
+{
+  if (!m_has_fallback) return msgid;
+  else if (msgctxt) return m_fallback->translate_ctxt(*msgctxt, msgid);
+  else return m_fallback->translate(msgid);
+}
+
 std::string
 Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid) const
 {
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
+    return translate(i->second, &msgctxt, msgid);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    return msgid;
+    return fallback(&msgctxt, msgid);
   }
 }
 
@@ -162,15 +178,12 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate_plural(i->second, msgid, msgidplural, num);
+    return translate_plural(i->second, &msgctxt, msgid, msgidplural, num);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    if (num != 1) // default to english
-      return msgidplural;
-    else
-      return msgid;
+    return fallback_plural(&msgctxt, msgid, msgidplural, num);
   }
 }
 
-- 
2.43.0


From 05953c1a7a27c22282b2b3d1641ae19afb0e29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 07/28] fix: do not take country or codeset from behind the
 codeset or modifier mark

---
 src/language.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..88a108c 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -431,6 +431,13 @@ Language::from_env(const std::string& env)
   std::string::size_type dt = env.find('.');
   std::string::size_type at = env.find('@');
 
+  // A '.' belongs to the modifier when it follows the '@', and a '_'
+  // belongs to the codeset or modifier when it follows either
+  if (dt > at)
+    dt = std::string::npos;
+  if (ln > std::min(dt, at))
+    ln = std::string::npos;
+
   std::string language;
   std::string country;
   std::string codeset;
-- 
2.43.0


From 15652662e5187d28d83e69784b2f70eb878d4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 08/28] fix: an entry with a context and empty source text is
 not the header

---
 src/po_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..e57bfb9 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -450,7 +450,7 @@ POParser::parse()
         {
           std::string msgstr = get_string(6);
 
-          if (msgid.empty())
+          if (msgid.empty() && !has_msgctxt)
           {
             parse_header(msgstr);
           }
-- 
2.43.0


From ce0cbed61357cbcaaaf8af01243637397622e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 09/28] fix: do not parse the last line of a file without final
 line end over and over

---
 src/po_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index e57bfb9..4a19544 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,10 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
     eof = true;
+    current_line.clear(); // otherwise the last line would be seen again
+  }
 }
 
 void
-- 
2.43.0


From 0bb0edd47814a6f9d7e88251de093493195a934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 10/28] fix: IConv grows its output buffer instead of aborting
 when a conversion needs more room

---
 src/iconv.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..c8039e2 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -102,7 +102,7 @@ IConv::convert(const std::string& text)
   else
   {
     size_t inbytesleft  = text.size();
-    size_t outbytesleft = 4*inbytesleft; // Worst case scenario: ASCII -> UTF-32?
+    size_t outbytesleft = 4*inbytesleft; // Enough for most charsets, more is added when needed
 
     // We try to avoid to much copying around, so we write directly into
     // a std::string
@@ -112,6 +112,17 @@ IConv::convert(const std::string& text)
 
     // Try to convert the text.
     size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    while (ret == static_cast<size_t>(-1) && errno == E2BIG)
+    { // output buffer to small
+      size_t used  = result.size() - outbytesleft;
+      size_t extra = result.size() + 16;
+      result.resize(result.size() + extra);
+      outbytesleft += extra;
+      outbuf = &result[used];
+
+      ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    }
+
     if (ret == static_cast<size_t>(-1))
     {
       if (errno == EILSEQ || errno == EINVAL)
@@ -121,10 +132,6 @@ IConv::convert(const std::string& text)
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
       }
-      else if (errno == E2BIG)
-      { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
-      }
       else if (errno == EBADF)
       {
         assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
@@ -135,7 +142,7 @@ IConv::convert(const std::string& text)
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From edb5d895208d521735ce43f7b8162bd51d47a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 11/28] fix: convert every message completely and from the
 initial conversion state

---
 src/iconv.cpp | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index c8039e2..03f02fa 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -91,6 +91,29 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   }
 }
 
+namespace {
+
+/// Calls iconv(), making room at the end of \a result as often as needed
+size_t
+iconv_grow(iconv_t cd, const char** inbuf, size_t* inbytesleft,
+           std::string& result, char** outbuf, size_t* outbytesleft)
+{
+  const char* no_input = nullptr;
+  size_t ret;
+  while ((ret = tinygettext::iconv(cd, inbuf ? inbuf : &no_input, inbytesleft, outbuf, outbytesleft)) == static_cast<size_t>(-1) &&
+         errno == E2BIG)
+  { // output buffer to small
+    size_t used  = result.size() - *outbytesleft;
+    size_t extra = result.size() + 16;
+    result.resize(result.size() + extra);
+    *outbytesleft += extra;
+    *outbuf = &result[used];
+  }
+  return ret;
+}
+
+} // namespace
+
 /// Convert a string from encoding to another.
 std::string
 IConv::convert(const std::string& text)
@@ -110,25 +133,15 @@ IConv::convert(const std::string& text)
     std::string result(outbytesleft, 'X');
     char* outbuf = &result[0];
 
-    // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    while (ret == static_cast<size_t>(-1) && errno == E2BIG)
-    { // output buffer to small
-      size_t used  = result.size() - outbytesleft;
-      size_t extra = result.size() + 16;
-      result.resize(result.size() + extra);
-      outbytesleft += extra;
-      outbuf = &result[used];
-
-      ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    }
+    // Every text starts in the initial state, whatever came before
+    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
 
+    // Try to convert the text.
+    size_t ret = iconv_grow(cd, &inbuf, &inbytesleft, result, &outbuf, &outbytesleft);
     if (ret == static_cast<size_t>(-1))
     {
       if (errno == EILSEQ || errno == EINVAL)
       { // invalid multibyte sequence
-        tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
-
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
       }
@@ -142,6 +155,10 @@ IConv::convert(const std::string& text)
       }
     }
 
+    // Write out what the conversion still holds back and return to the
+    // initial state
+    iconv_grow(cd, nullptr, nullptr, result, &outbuf, &outbytesleft);
+
     result.resize(result.size() - outbytesleft);
 
     return result;
-- 
2.43.0


From 1c8bbfc1fb16ddae30811583cdea909cec650688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 12/28] fix: read a file without header as UTF-8 instead of
 leaving it unconverted

---
 include/tinygettext/po_parser.hpp |  2 ++
 src/po_parser.cpp                 | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..8b5e7aa 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -44,11 +44,13 @@ private:
   std::string current_line;
 
   IConv conv;
+  bool has_charset;
 
   POParser(const std::string& filename, std::istream& in_, Dictionary& dict_, bool use_fuzzy = true);
   ~POParser();
 
   void parse_header(const std::string& header);
+  std::string convert(const std::string& msgstr);
   void parse();
   void next_line();
   std::string get_string(unsigned int skip);
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 4a19544..54aaa5f 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -56,7 +56,8 @@ POParser::POParser(const std::string& filename_, std::istream& in_, Dictionary&
   big5(false),
   line_number(0),
   current_line(),
-  conv()
+  conv(),
+  has_charset(false)
 {
 }
 
@@ -300,6 +301,18 @@ POParser::parse_header(const std::string& header)
   }
 
   conv.set_charsets(from_charset, dict.get_charset());
+  has_charset = true;
+}
+
+std::string
+POParser::convert(const std::string& msgstr)
+{
+  if (!has_charset)
+  { // no header so far, fallback to utf-8
+    conv.set_charsets("UTF-8", dict.get_charset());
+    has_charset = true;
+  }
+  return conv.convert(msgstr);
 }
 
 bool
@@ -405,7 +418,7 @@ POParser::parse()
             if (number >= msgstr_num.size())
               msgstr_num.resize(number+1);
 
-            msgstr_num[number] = conv.convert(msgstr);
+            msgstr_num[number] = convert(msgstr);
             goto next;
           }
           else
@@ -462,9 +475,9 @@ POParser::parse()
             if (use_fuzzy || !fuzzy)
             {
               if (has_msgctxt)
-                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));
+                dict.add_translation(msgctxt, msgid, convert(msgstr));
               else
-                dict.add_translation(msgid, conv.convert(msgstr));
+                dict.add_translation(msgid, convert(msgstr));
             }
 
             if ((false))
-- 
2.43.0


From 66193cbb51759755ecf33f73fac108e2c39b8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 13/28] fix: use_fuzzy setting of the manager reaches the
 parser

---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 8b5e7aa..4a78109 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -67,8 +67,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy whether entries flagged as fuzzy are used */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..6b028b5 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -162,7 +162,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 54aaa5f..299ee7c 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -38,9 +38,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From 2dd4c023beebb4fe6bebf589ca714ebd72739b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 14/28] fix: a malformed entry noticed at its blank line does
 not swallow the next entry

---
 src/po_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 299ee7c..7c5b03e 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -77,10 +77,10 @@ POParser::error(const std::string& msg)
 {
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
-  // Try to recover from an error by searching for start of another entry
-  do
+  // Try to recover from an error by searching for start of another entry,
+  // if the current line is empty the next entry starts right behind it
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From 5677d6effb6c235e6e8c469a8ac53fef236f9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 15/28] fix: get_languages reads file names like loading does
 and leaves out unknown languages

---
 src/dictionary_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6b028b5..e1bcacf 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -195,7 +195,11 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        // same rules as for loading: ignore unknown languages and the
+        // letter case of the country
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From 2862414da39364aa95d6a85664a79eed7ce52d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 16/28] fix: report a file whose stream failed to open

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index e1bcacf..f6e4a47 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -156,7 +156,7 @@ DictionaryManager::get_dictionary(const Language& language)
         try
         {
           std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
-          if (!in)
+          if (!in || !*in)
           {
             log_error << "error: failure opening: " << pofile << std::endl;
           }
-- 
2.43.0


From baad742235e7fa2800d546ce216d4d1973325569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 17/28] fix: do not keep a dictionary whose loading ended in an
 exception

---
 src/dictionary_manager.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index f6e4a47..27b0653 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -114,9 +114,7 @@ DictionaryManager::get_dictionary(const Language& language)
   else // Dictionary for languages lang isn't loaded, so we load it
   {
     //log_debug << "get_dictionary: " << lang << std::endl;
-    Dictionary* dict = new Dictionary(charset);
-
-    dictionaries[language] = dict;
+    std::unique_ptr<Dictionary> dict(new Dictionary(charset));
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
@@ -178,7 +176,11 @@ DictionaryManager::get_dictionary(const Language& language)
         // printf("Adding language fallback %s\n", language.get_language().c_str());
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
-    return *dict;
+
+    // only remember the dictionary when nothing above threw an exception
+    Dictionary*& entry = dictionaries[language];
+    entry = dict.release();
+    return *entry;
   }
 }
 
-- 
2.43.0


From d61d885c4c352fe298b90cc7719fa4ee09edfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 18/28] fix: a converter keeps its descriptor when configuring
 it anew fails

---
 src/iconv.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 03f02fa..61b94fd 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -53,8 +53,8 @@ IConv::~IConv()
 void
 IConv::set_charsets(const std::string& from_charset_, const std::string& to_charset_)
 {
-  if (cd)
-    tinygettext::iconv_close(cd);
+  // the old descriptor stays in use until everything that can fail is done
+  iconv_t new_cd;
 
   from_charset = from_charset_;
   to_charset   = to_charset_;
@@ -67,12 +67,12 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
 
   if (to_charset == from_charset)
   {
-    cd = nullptr;
+    new_cd = nullptr;
   }
   else
   {
-    cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
-    if (cd == reinterpret_cast<iconv_t>(-1))
+    new_cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
+    if (new_cd == reinterpret_cast<iconv_t>(-1))
     {
       if(errno == EINVAL)
       {
@@ -89,6 +89,10 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
       }
     }
   }
+
+  if (cd)
+    tinygettext::iconv_close(cd);
+  cd = new_cd;
 }
 
 namespace {
-- 
2.43.0


From a8be2f5222a29a868c371044262a361660aff468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 19/28] fix: fill the language and plural rule tables once,
 safely for several threads

---
 src/language.cpp     | 47 +++++++++++++++++++++++++++++---------------
 src/plural_forms.cpp | 21 +++++++++++++-------
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 88a108c..6515783 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -293,12 +293,12 @@ static const LanguageSpec languages[] = {
 
 namespace {
 
-std::string
-resolve_language_alias(const std::string& name)
+typedef std::unordered_map<std::string, std::string> Aliases;
+
+Aliases
+make_language_aliases()
 {
-  typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
+  Aliases language_aliases;
   {
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
@@ -354,13 +354,21 @@ resolve_language_alias(const std::string& name)
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
   }
+  return language_aliases;
+}
+
+std::string
+resolve_language_alias(const std::string& name)
+{
+  // initialized as a whole on first use, so that it is safe to use from several threads
+  static const Aliases language_aliases = make_language_aliases();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
+  Aliases::const_iterator i = language_aliases.find(name_lowercase);
   if (i != language_aliases.end())
   {
     return i->second;
@@ -371,24 +379,31 @@ resolve_language_alias(const std::string& name)
   }
 }
 
-} // namespace
+typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
 
-Language
-Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
+LanguageSpecMap
+make_language_map()
 {
-  typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
+  LanguageSpecMap language_map;
   { // Init language_map
     for(int i = 0; languages[i].language != nullptr; ++i)
       language_map[languages[i].language].push_back(&languages[i]);
   }
+  return language_map;
+}
+
+} // namespace
+
+Language
+Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
+{
+  // initialized as a whole on first use, so that it is safe to use from several threads
+  static const LanguageSpecMap language_map = make_language_map();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
+  LanguageSpecMap::const_iterator i = language_map.find(language);
   if (i != language_map.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +413,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index abad951..80c28e9 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -59,15 +59,12 @@ unsigned int plural4_uk(int n) { return static_cast<unsigned int>(n % 1 == 0 &&
 unsigned int plural5_ga(int n) { return static_cast<unsigned int>(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4);}
 unsigned int plural6_ar(int n) { return static_cast<unsigned int>( n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5); }
 
-} // namespace
+typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
 
-PluralForms
-PluralForms::from_string(const std::string& str)
+PluralFormsMap
+make_plural_forms()
 {
-  typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
-
-  if (plural_forms.empty())
+  PluralFormsMap plural_forms;
   {
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
@@ -96,6 +93,16 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4);"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5;"]=PluralForms(6, plural6_ar);
   }
+  return plural_forms;
+}
+
+} // namespace
+
+PluralForms
+PluralForms::from_string(const std::string& str)
+{
+  // initialized as a whole on first use, so that it is safe to use from several threads
+  static const PluralFormsMap plural_forms = make_plural_forms();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
-- 
2.43.0


From d14a0ae91969bdd948956eec200e0eea190d2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 20/28] fix: a second header of the same file left the Big5
 scanning mode on

---
 src/po_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 7c5b03e..72b9705 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -241,6 +241,7 @@ void
 POParser::parse_header(const std::string& header)
 {
   std::string from_charset;
+  big5 = false; // an earlier header of the same file may have set it
   std::string::size_type start = 0;
   for(std::string::size_type i = 0; i < header.length(); ++i)
   {
-- 
2.43.0


From d5df2b75af325b345bf064cc4ad72fb279f4c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 21/28] fix: Turkish letter case rules broke character set
 names, aliases and country codes

---
 src/dictionary_manager.cpp | 3 ++-
 src/iconv.cpp              | 5 +++--
 src/language.cpp           | 3 ++-
 src/po_parser.cpp          | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 27b0653..2efc390 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -24,6 +24,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <fstream>
+#include <locale>
 #include <algorithm>
 
 #include "tinygettext/file_system.hpp"
@@ -293,7 +294,7 @@ std::string DictionaryManager::convertFilename2Language(const std::string &s_in)
             // of filename.
             if(!::isalpha(s[i]))
                 break;
-            s[i] = static_cast<char>(::toupper(s[i]));
+            s[i] = std::toupper(s[i], std::locale::classic());
         }
         else
             underscore_found = s[i]=='_';
diff --git a/src/iconv.cpp b/src/iconv.cpp
index 61b94fd..610381f 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -19,6 +19,7 @@
 
 #include <ctype.h>
 #include <assert.h>
+#include <locale>
 #include <sstream>
 #include <errno.h>
 #include <stdexcept>
@@ -60,10 +61,10 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   to_charset   = to_charset_;
 
   for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = std::toupper(*i, std::locale::classic());
 
   for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = std::toupper(*i, std::locale::classic());
 
   if (to_charset == from_charset)
   {
diff --git a/src/language.cpp b/src/language.cpp
index 6515783..2fcc7e0 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -20,6 +20,7 @@
 #include "tinygettext/language.hpp"
 
 #include <assert.h>
+#include <locale>
 #include <unordered_map>
 #include <vector>
 #include <algorithm>
@@ -366,7 +367,7 @@ resolve_language_alias(const std::string& name)
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
-    name_lowercase[i] = static_cast<char>(tolower(name[i]));
+    name_lowercase[i] = std::tolower(name[i], std::locale::classic());
 
   Aliases::const_iterator i = language_aliases.find(name_lowercase);
   if (i != language_aliases.end())
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 72b9705..bb2396e 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -23,6 +23,7 @@
 #include <ctype.h>
 #include <string>
 #include <istream>
+#include <locale>
 #include <string.h>
 #include <unordered_map>
 #include <stdlib.h>
@@ -258,7 +259,7 @@ POParser::parse_header(const std::string& header)
           from_charset = line.substr(len);
 
           for(std::string::iterator ch = from_charset.begin(); ch != from_charset.end(); ++ch)
-            *ch = static_cast<char>(toupper(*ch));
+            *ch = std::toupper(*ch, std::locale::classic());
         }
         else
         {
-- 
2.43.0


From 8f7eb37d5b7ce8f2a66dc8037c5d9e73c2c87f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 22/28] fix: line numbers in diagnostics followed the global
 locale

---
 src/log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log.cpp b/src/log.cpp
index 531deb1..7fad1b3 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -18,6 +18,7 @@
 // 3. This notice may not be removed or altered from any source distribution.
 
 #include <iostream>
+#include <locale>
 #include "tinygettext/log.hpp"
 
 namespace tinygettext {
@@ -54,6 +55,8 @@ Log::Log(log_callback_t callback_) :
   callback(callback_),
   out()
 {
+  // line numbers must not be grouped, whatever the global locale
+  out.imbue(std::locale::classic());
 }
 
 Log::~Log()
-- 
2.43.0


From 922c5f1c4f8dd5a25b84ba944ca4619ea086a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 23/28] fix: a log callback asking for the dictionary being
 loaded would load it again without end

---
 src/dictionary_manager.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 2efc390..c78fb29 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -115,7 +115,29 @@ DictionaryManager::get_dictionary(const Language& language)
   else // Dictionary for languages lang isn't loaded, so we load it
   {
     //log_debug << "get_dictionary: " << lang << std::endl;
-    std::unique_ptr<Dictionary> dict(new Dictionary(charset));
+    // The dictionary is known from the start, so that a log callback that
+    // itself asks for it does not load it once more, but it is forgotten
+    // again should anything below throw an exception
+    struct Loading
+    {
+      DictionaryManager& manager;
+      Language language;
+      std::unique_ptr<Dictionary> dict;
+
+      ~Loading()
+      {
+        if (dict)
+        {
+          manager.dictionaries.erase(language);
+          if (manager.current_dict == dict.get())
+            manager.current_dict = nullptr;
+        }
+      }
+    };
+
+    Loading loading = { *this, language, std::unique_ptr<Dictionary>(new Dictionary(charset)) };
+    Dictionary* dict = loading.dict.get();
+    dictionaries[language] = dict;
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
@@ -178,10 +200,8 @@ DictionaryManager::get_dictionary(const Language& language)
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
 
-    // only remember the dictionary when nothing above threw an exception
-    Dictionary*& entry = dictionaries[language];
-    entry = dict.release();
-    return *entry;
+    loading.dict.release();
+    return *dict;
   }
 }
 
-- 
2.43.0


From e9a71e384730aec64b18627ce801223a0889ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:57 +0000
Subject: [PATCH 24/28] fix: the language, alias and plural rule tables were
 gone while the process exits

---
 src/language.cpp     | 6 ++++--
 src/plural_forms.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 2fcc7e0..b545eb1 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -362,7 +362,8 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   // initialized as a whole on first use, so that it is safe to use from several threads
-  static const Aliases language_aliases = make_language_aliases();
+  // and never destroyed, so that it stays usable while the process exits
+  static const Aliases& language_aliases = *new Aliases(make_language_aliases());
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
@@ -399,7 +400,8 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   // initialized as a whole on first use, so that it is safe to use from several threads
-  static const LanguageSpecMap language_map = make_language_map();
+  // and never destroyed, so that it stays usable while the process exits
+  static const LanguageSpecMap& language_map = *new LanguageSpecMap(make_language_map());
 
   LanguageSpecMap::const_iterator i = language_map.find(language);
   if (i != language_map.end())
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 80c28e9..e8b83f7 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -102,7 +102,8 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   // initialized as a whole on first use, so that it is safe to use from several threads
-  static const PluralFormsMap plural_forms = make_plural_forms();
+  // and never destroyed, so that it stays usable while the process exits
+  static const PluralFormsMap& plural_forms = *new PluralFormsMap(make_plural_forms());
 
   // Remove spaces from string before lookup
   std::string space_less_str;
-- 
2.43.0


From 8edf861088551e0e7188c4321ba46e7293c3ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 25/28] fix: a diagnostic that memory does not suffice for
 ended the process

---
 src/log.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/log.cpp b/src/log.cpp
index 7fad1b3..9c93acf 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -19,6 +19,7 @@
 
 #include <iostream>
 #include <locale>
+#include <new>
 #include "tinygettext/log.hpp"
 
 namespace tinygettext {
@@ -61,7 +62,16 @@ Log::Log(log_callback_t callback_) :
 
 Log::~Log()
 {
-  callback(out.str());
+  std::string str;
+  try
+  {
+    str = out.str();
+  }
+  catch (const std::bad_alloc&)
+  { // the message is lost, but an exception from here would end the process
+    return;
+  }
+  callback(str);
 }
 
 std::ostream&
-- 
2.43.0


From 5fe602a5947c23de5a51a94c3da1eb30ba636980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:57 +0000
Subject: [PATCH 26/28] fix: convertFilename2Language threw for names shorter
 than three characters

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index c78fb29..bc3a225 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -298,7 +298,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From 0e4fc1d7d36ec1aaa88ab7f79c53c4e7b4768773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 27/28] fix: a string was cut short silently when memory ran
 out while it was read

---
 src/po_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index bb2396e..1efb292 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -169,6 +169,7 @@ std::string
 POParser::get_string(unsigned int skip)
 {
   std::ostringstream out;
+  out.exceptions(std::ostringstream::badbit); // otherwise running out of memory cuts the string short
 
   if (skip+1 >= static_cast<unsigned int>(current_line.size()))
     error("unexpected end of line");
-- 
2.43.0


From d16d3198060088814a5d3c57da69314a77be3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 28/28] fix: a file that breaks while it is read was silently
 taken for a shorter one

---
 src/po_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 1efb292..c7e5c74 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -507,6 +507,9 @@ POParser::parse()
     {
     }
   }
+
+  if (in.bad())
+    log_error << filename << ":" << line_number << ": error: failure reading, the rest of the file is missing" << std::endl;
 }
 
 } // namespace tinygettext
-- 
2.43.0

