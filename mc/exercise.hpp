// Uses of the library that between them take it through nearly all of its branches, the rare ones above all. Each gives what is observable.
#pragma once
#include "tg.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/iconv.hpp"
namespace exercise {
using namespace tg;
using tinygettext::DictionaryManager; using tinygettext::IConv;
static const char* const TWO = "nplurals=2; plural=(n != 1);";
inline std::string odd() {
  std::string o; Dictionary d("ISO-8859-1"), u("UTF-8"); int k = 0;
  for (auto& f : odd_files()) for (Dictionary* x : {&d, &u}) { try { std::istringstream in(f); POParser::parse("odd", in, *x, ++k > 1); } catch (std::runtime_error& e) { o += e.what(); } }
  return o + show(snap(d)) + show(snap(u));
}
inline std::string troubled() { // unreadable and unsuitable files, refused and broken conversions, changed settings
  struct Broken : MemFS { using MemFS::MemFS; std::unique_ptr<std::istream> open_file(const std::string& n) override { if (n == "q/de.po") return std::unique_ptr<std::istream>(); return MemFS::open_file(n); } };
  auto f = std::make_shared<Files>(); std::string small = header("ISO-8859-1", TWO) + "\nmsgid \"a\"\nmsgstr \"A\xe9\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"C\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n"; f->dirs["p"] = {{"de.po", small}, {"de_AT.po", small}, {"zz.po", ""}}; f->dirs["q"] = {{"de.po", ""}, {"de_CH.po", header("NOWHERE") + "\nmsgid \"a\"\nmsgstr \"x\"\n"}, {"README", ""}}; std::string o;
  DictionaryManager m(std::unique_ptr<FileSystem>(new Broken(f)), "UTF-8"); m.add_directory("p"); m.add_directory("q", true); m.add_directory("p"); m.set_use_fuzzy(false); m.set_language(Language::from_env("de_CH"));
  o += m.get_dictionary().translate("a") + m.get_dictionary().translate("none") + m.get_dictionary().translate_ctxt("c", "none") + m.get_dictionary().translate_ctxt_plural("c", "none", "nones", 2); m.set_charset("KOI8-R"); o += m.get_dictionary().get_charset() + m.convertFilename2Language("de_at.po") + m.get_language().str(); m.set_language(Language()); o += m.get_dictionary().translate("a");
  o += IConv("UTF-8", "UTF-32").convert("x"); IConv c("UTF-8", "ISO-8859-1"); o += c.convert("\xc5\x81") + c.convert("x\xff"); try { c.set_charsets("NOWHERE", "UTF-8"); } catch (std::runtime_error& e) { o += e.what(); } o += c.convert("\xc3\xa9");
  return mc::quote(o, 2000);
}
inline std::string collisions() {
  Dictionary b, d; d.addFallback(&b); b.add_translation("c", "f", "F"); for (int i = 0; i < 2; ++i) { std::string s = std::to_string(i); d.add_translation("a", s); d.add_translation("n", "ns", Strings{s, "x"}); d.add_translation("c", "a", s); d.add_translation("c", "n", "ns", Strings{s}); d.add_translation("e", ""); }
  std::string o = d.translate("e") + d.translate_ctxt("c", "f") + d.translate_ctxt("x", "f"); for (int n : {1, 2}) o += d.translate_plural("a", "as", n) + d.translate_plural("n", "ns", n) + d.translate_ctxt_plural("c", "n", "ns", n) + d.translate_ctxt_plural("x", "n", "ns", n) + d.translate_plural("e", "es", n);
  d.set_plural_forms(forms(TWO)); return o + d.translate_plural("a", "as", 5) + d.translate_ctxt_plural("c", "n", "ns", 5) + show(snap(d));
}
}
