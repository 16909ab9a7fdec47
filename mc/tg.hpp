// Helpers around the public API of the library under test.
#pragma once
#include <iterator>
#include <cstring>
#include <climits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "mc.hpp"
#include "ref.hpp"
#include "tinygettext/tinygettext.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/log.hpp"

namespace tg {
using namespace tinygettext;
using ref::Strings;

struct Snap {
  std::map<std::string, Strings> plain;
  std::map<std::pair<std::string, std::string>, Strings> ctxt;
  int repeats = 0;
  unsigned nplural = 0;
  std::vector<unsigned> sig;
  bool operator==(const Snap& o) const { return plain == o.plain && ctxt == o.ctxt && repeats == o.repeats && nplural == o.nplural && sig == o.sig; }
  bool operator!=(const Snap& o) const { return !(*this == o); }
  uint64_t hash() const {
    uint64_t h = 7;
    for (auto& e : plain) { h = mc::hash(e.first, h) + 1; for (auto& s : e.second) h = mc::hash(s, h) + 3; }
    for (auto& e : ctxt) { h = mc::hash(e.first.first, h) + 5; h = mc::hash(e.first.second, h) + 7; for (auto& s : e.second) h = mc::hash(s, h) + 3; }
    return h + nplural * 1000003u + (sig.empty() ? 0 : mc::hash(sig.data(), sig.size() * sizeof(unsigned), 11));
  }
};

inline const std::vector<int>& sig_counts() { static const std::vector<int> v = [] { std::vector<int> r; for (int i = 0; i <= 125; ++i) r.push_back(i); for (int i : {199, 200, 201, 202, 211, 1000, 1001, 1000000, INT_MAX}) r.push_back(i); return r; }(); return v; }

inline const std::vector<int>& short_counts() { static const std::vector<int>& c = *new std::vector<int>{0, 1, 2, 3, 5, 7, 10, 11, 12, 19, 20, 21, 22, 25, 100, 101, 102, 103, 111, 112, 113}; return c; }

inline Snap snap(Dictionary& d) {
  Snap s;
  d.foreach([&](const std::string& id, const Strings& v) { if (!s.plain.insert({id, v}).second) ++s.repeats; });
  d.foreach_ctxt([&](const std::string& c, const std::string& id, const Strings& v) { if (!s.ctxt.insert({{c, id}, v}).second) ++s.repeats; });
  PluralForms p = d.get_plural_forms();
  s.nplural = p.get_nplural();
  if (p) for (int n : short_counts()) s.sig.push_back(p.get_plural(n));
  return s;
}

inline std::string show(const Strings& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ", "; o += mc::quote(v[i], 60); } return o + "]"; }
inline std::string show(const Snap& s) {
  std::string o; size_t k = 0;
  for (auto& e : s.plain) { if (++k > 12) { o += "  ...\n"; break; } o += "  " + mc::quote(e.first, 60) + " -> " + show(e.second) + "\n"; }
  k = 0;
  for (auto& e : s.ctxt) { if (++k > 12) { o += "  ...\n"; break; } o += "  ctxt " + mc::quote(e.first.first, 60) + " " + mc::quote(e.first.second, 60) + " -> " + show(e.second) + "\n"; }
  if (s.repeats) o += "  (" + std::to_string(s.repeats) + " entries listed twice)\n";
  o += "  nplural " + std::to_string(s.nplural) + "\n";
  return o;
}
inline Snap snap_of(const ref::Dict& d) {
  Snap s; s.plain = d.plain;
  for (auto& c : d.ctxt) for (auto& e : c.second) s.ctxt[{c.first, e.first}] = e.second;
  if (d.rule) { s.nplural = d.rule->count(); for (int n : short_counts()) s.sig.push_back(static_cast<unsigned>(d.rule->form(n))); }
  return s;
}
inline std::string diff(const Snap& got, const Snap& want) { return "loaded:\n" + show(got) + "expected:\n" + show(want); }

// ---- log capture ----
enum Sev { INFO, WARNING, ERROR };
struct Logs {
  static std::vector<std::pair<Sev, std::string>>& all() { static std::vector<std::pair<Sev, std::string>>& v = *new std::vector<std::pair<Sev, std::string>>; return v; }
  static size_t& nerr() { static size_t n; return n; }
  static size_t& nwarn() { static size_t n; return n; }
  static size_t& ninfo() { static size_t n; return n; }
  static bool& keep() { static bool b; return b; }
  static void info(const std::string& s) { ++ninfo(); if (keep()) all().push_back({INFO, s}); }
  static void warning(const std::string& s) { ++nwarn(); if (keep()) all().push_back({WARNING, s}); }
  static void error(const std::string& s) { ++nerr(); if (keep()) all().push_back({ERROR, s}); }
  static void clear() { all().clear(); nerr() = nwarn() = ninfo() = 0; }
  static void install(bool k = false) { keep() = k; clear(); Log::set_log_info_callback(info); Log::set_log_warning_callback(warning); Log::set_log_error_callback(error); }
  static void silence() { Log::set_log_info_callback(nullptr); Log::set_log_warning_callback(nullptr); Log::set_log_error_callback(nullptr); }
};

inline void parse(const std::string& text, Dictionary& d, const std::string& name = "t.po") { std::istringstream in(text); POParser::parse(name, in, d); }

// ---- PO text ----
inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) switch (c) { case '\a': o += "\\a"; break; case '\b': o += "\\b"; break; case '\v': o += "\\v"; break; case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break; case '\r': o += "\\r"; break; case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; default: o += c; }
  return o;
}
inline std::string q(const std::string& s) { return "\"" + esc(s) + "\""; }
inline std::string header(const std::string& charset, const std::string& plural = "") {
  std::string o = "msgid \"\"\nmsgstr \"\"\n\"Project-Id-Version: x\\n\"\n";
  if (!charset.empty()) o += "\"Content-Type: text/plain; charset=" + charset + "\\n\"\n";
  if (!plural.empty()) o += "\"Plural-Forms: " + plural + "\\n\"\n";
  return o + "\"Content-Transfer-Encoding: 8bit\\n\"\n";
}
inline PluralForms forms(const std::string& rule_header) { return PluralForms::from_string("Plural-Forms: " + rule_header); }
struct LibRule : ref::Selector { PluralForms p; explicit LibRule(const PluralForms& f) : p(f) {} size_t form(int n) const override { return p.get_plural(n); } unsigned count() const override { return p.get_nplural(); } };
// the library's own rule object for a canonical header, null if the library does not know it
inline const ref::Selector* rule(size_t i) {
  static std::vector<std::unique_ptr<LibRule>> v = [] { std::vector<std::unique_ptr<LibRule>> r; for (auto& h : ref::plural_headers()) { PluralForms f = forms(h); r.emplace_back(f ? new LibRule(f) : nullptr); } return r; }();
  return v[i].get();
}

// short files that between them take the parser through all of its branches; the second is Big5, the third has no header
inline const Strings& odd_files() {
  static const Strings& f = *new Strings{
    "\xef\xbb\xbf# intro\n#\nmsgid \"\"\nmsgstr \"Content-Type: text/html\\n\"\n \"Plural-Forms: nplurals=9; plural=n;\\n\"\n\tgarbage\n\nmsgid \"esc\"\nmsgstr \"\\a\\b\\v\\n\\t\\r\\\"\\\\\\q\" behind\n\nmsgid  \"two spaces\"\nmsgstr\t\"x\xc3\xa9\xc5\x81\"\n \"y\"\n\nmsgid nothing\n\nmsgid \"open\nmsgstr \"x\"\n\nmsgid \"end\\\n\nmsgid\n\nmsgid \n\nmsgid \"lonely\"\n\nnonsense\nmore\n\nmsgid \"p\"\nmsgid_plural \"ps\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[x] \"1\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"1\"\nmsgstr[1] \"2\"\n\nmsgid \"e\"\nmsgstr \"E\"\n#~ rest\n\n#, fuzzy, c-format\nmsgid \"f\"\nmsgstr \"F\"\n\nmsgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"c1\"\nmsgstr[3] \"c4\"\n\nmsgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=(n > 1)\\n\"\n\"Content-Type: text/plain; charset=utf-8\\n\"\n\nmsgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgid \"bad\"\nmsgstr \"ok\xff\xc3\"\n\nmsgctxt \"c\"\nmsgid \"bad\"\nmsgstr \"C\"\n\nmsgctxt \"c\"\nmsgid \"bad\"\nmsgstr \"again\"\n\nmsgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"d1\"\nmsgstr[1] \"d2\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"n1\"\n \nmsgid \"unended\"\nmsgstr \"u",
    header("BIG5") + "\nmsgid \"b\"\nmsgstr \"\xa4\x40\xb3\x5c\"\n\nmsgid \"cut\"\nmsgstr \"\xa4\n\nmsgid \"b2\"\nmsgstr \"\\n\xb3\x5c\\n\"\n",
    "msgid \"q\"\nmsgid_plural \"qs\"\nmsgstr[0] \"\xc3\xa9\"\nmsgstr[1] \"2\"\n\nmsgid \"e\"\nmsgstr \"third\"\n\nmsgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NOWHERE\\n\"\n\nmsgid \"lost\"\nmsgstr \"x\"\n"};
  return f;
}
// ---- in-memory file system ----
struct Files { std::map<std::string, std::vector<std::pair<std::string, std::string>>> dirs; int lists = 0, opens = 0; std::vector<std::string> opened; };
class MemFS : public FileSystem {
public:
  std::shared_ptr<Files> f;
  explicit MemFS(std::shared_ptr<Files> files) : f(std::move(files)) {}
  std::vector<std::string> open_directory(const std::string& p) override { ++f->lists; std::vector<std::string> r; auto i = f->dirs.find(p); if (i != f->dirs.end()) for (auto& e : i->second) r.push_back(e.first); return r; }
  std::unique_ptr<std::istream> open_file(const std::string& name) override {
    ++f->opens; f->opened.push_back(name);
    for (auto& d : f->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == name) return std::unique_ptr<std::istream>(new std::istringstream(e.second));
    return std::unique_ptr<std::istream>();
  }
};
// lookups and additions with an optional context (null: none)
typedef const std::string* Cx;
inline std::string tr(const Dictionary& d, Cx c, const std::string& id) { return c ? d.translate_ctxt(*c, id) : d.translate(id); }
inline std::string trp(const Dictionary& d, Cx c, const std::string& id, const std::string& pl, int n) { return c ? d.translate_ctxt_plural(*c, id, pl, n) : d.translate_plural(id, pl, n); }
inline void add(Dictionary& d, Cx c, const std::string& id, const std::string& s) { if (c) d.add_translation(*c, id, s); else d.add_translation(id, s); }
inline void addp(Dictionary& d, Cx c, const std::string& id, const std::string& pl, const Strings& v) { if (c) d.add_translation(*c, id, pl, v); else d.add_translation(id, pl, v); }
inline void add(ref::Dict& d, Cx c, const std::string& id, const std::string& s) { if (c) d.add_c(*c, id, s); else d.add(id, s); }
inline void addp(ref::Dict& d, Cx c, const std::string& id, const Strings& v) { if (c) d.add_c(*c, id, v); else d.add(id, v); }
inline std::string cx(Cx c) { return c ? "ctxt " + mc::quote(*c, 30) + " " : ""; }
// drops entries that hold no string at all: whether they are listed is not specified
inline Snap lean(Snap s) { for (auto i = s.plain.begin(); i != s.plain.end();) if (i->second.empty()) i = s.plain.erase(i); else ++i; for (auto i = s.ctxt.begin(); i != s.ctxt.end();) if (i->second.empty()) i = s.ctxt.erase(i); else ++i; return s; }

inline ref::Lang lang(const Language& l) { return ref::Lang{l.get_language(), l.get_country(), l.get_modifier()}; }

} // namespace tg
