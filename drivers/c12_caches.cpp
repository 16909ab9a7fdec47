// C12: operation sequences on managers; every dictionary obtained is compared with one from a new manager in the same configuration.
#include <functional>
#include "mgr.hpp"
#include "langs.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
std::string file(const std::string& dir, const std::string& lang, const std::string& cs, const std::string& rule_, bool more) {
  std::string m = dir + lang, u = cs == "UTF-8" ? "\xc3\xa9" : "\xe9";
  std::string t = header(cs, rule_) + "\nmsgid \"w\"\nmsgstr \"" + m + u + "\"\n\nmsgctxt \"c\"\nmsgid \"w\"\nmsgstr \"c" + m + "\"\n\n#, fuzzy\nmsgid \"z\"\nmsgstr \"z" + m + "\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"0" + m + "\"\nmsgstr[1] \"1" + m + "\"\n\nmsgid \"only" + m + "\"\nmsgstr \"" + u + m + "\"\n";
  if (more) t += "\nmsgctxt \"c\"\nmsgid \"more\"\nmsgid_plural \"mores\"\nmsgstr[0] \"M" + m + "\"\nmsgstr[1] \"N" + m + "\"\n";
  if (cs == "UTF-8") t += "\nmsgid \"cyr\"\nmsgstr \"\xd0\x96" + m + "\"\n";
  return t;
}
const std::string TWO = "nplurals=2; plural=(n != 1);", FR = "nplurals=2; plural=(n > 1);";
std::shared_ptr<Files>& world() {
  static std::shared_ptr<Files> f = [] { auto r = std::make_shared<Files>();
    r->dirs["p"] = {{"de.po", file("p", "de", "UTF-8", TWO, true)}, {"de_AT.po", file("p", "de_AT", "ISO-8859-1", TWO, false)}, {"fr.po", file("p", "fr", "UTF-8", FR, true)}};
    r->dirs["q"] = {{"de_AT.po", file("q", "de_AT", "UTF-8", FR, true)}, {"de_DE.po", file("q", "de_DE", "UTF-8", TWO, false)}, {"README", "x"}};
    r->dirs["r"] = {{"de.po", file("r", "de", "ISO-8859-1", TWO, false)}, {"fr_FR.po", file("r", "fr_FR", "UTF-8", TWO, true)}};
    return r; }();
  return f;
}
struct Conf { Path path; std::string charset = "UTF-8"; bool fuzzy = true; Language lang; };
std::string answer(Dictionary& d) {
  Snap s = snap(d); std::string o = show(s) + d.get_charset() + "\n";
  for (int k = 0; k < 3; ++k) { o += d.translate(k == 0 ? "w" : k == 1 ? "z" : "absent") + "|"; o += d.translate_ctxt("c", k == 0 ? "w" : "more") + "|"; }
  for (int n = 0; n < 3; ++n) o += d.translate_plural("n", "ns", n) + "|" + d.translate_ctxt_plural("c", "more", "mores", n) + "|";
  for (const char* m : {"onlypde", "onlyqde_DE", "onlyrde", "onlypde_AT", "onlyqde_AT", "onlypfr"}) o += d.translate(m) + "|";
  return o + "cyr " + d.translate("cyr");
}
const std::string& fresh(const Conf& c, const Language& l) {
  static std::map<std::string, std::string> memo;
  std::string key = str(c.path) + "|" + c.charset + (c.fuzzy ? "|1|" : "|0|") + (l ? l.str() : "");
  auto i = memo.find(key); if (i != memo.end()) return i->second;
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(world())), c.charset);
  if (!c.fuzzy) dm.set_use_fuzzy(false);
  for (auto& d : c.path) dm.add_directory(d);
  std::string a; if (l) a = answer(dm.get_dictionary(l)); else a = answer(dm.get_dictionary());
  return memo[key] = a;
}
struct Bad { std::string msg; };
const char* NAMES[] = {"set_language(de)", "set_language(de_AT)", "get_dictionary()", "get_dictionary(de)", "get_dictionary(de_AT)", "add(p)", "add(q)", "remove(p)", "set_charset(ISO-8859-1)", "set_use_fuzzy(false)", "add(r, precedence)", "get_dictionary(fr)", "set_language()", "set_charset(UTF-8)", "set_use_fuzzy(true)", "remove(q)", "set_charset(NOSUCH)", "get_languages()", "set_language(fr)", "remove(absent)", "set_charset(UTF-16LE)", "set_charset(UTF-16BE)", "set_charset(ISO-8859-2)", "set_charset(utf-8)"};
const int NOPS = 20, ALLOPS = sizeof NAMES / sizeof *NAMES;
struct Mgr {
  DictionaryManager dm; Conf c; std::vector<std::pair<Dictionary*, std::string>> held;
  Mgr() : dm(std::unique_ptr<FileSystem>(new MemFS(world()))) {}
  void changed() { held.clear(); }
  void still() { for (auto& h : held) if (answer(*h.first) != h.second) throw Bad{"a dictionary obtained earlier has changed although the configuration has not:\n" + answer(*h.first) + "\nbefore:\n" + h.second}; }
  void get(Dictionary& d, const Language& l) {
    std::string a = answer(d); const std::string& w = fresh(c, l);
    if (a != w) throw Bad{"answers:\n" + a + "\na new manager answers:\n" + w};
    held.push_back({&d, a});
  }
  void op(int o) {
    switch (o) {
      case 0: c.lang = Language::from_spec("de"); dm.set_language(c.lang); break;
      case 1: c.lang = Language::from_spec("de", "AT"); dm.set_language(c.lang); break;
      case 2: get(dm.get_dictionary(), c.lang); break;
      case 3: get(dm.get_dictionary(Language::from_spec("de")), Language::from_spec("de")); break;
      case 4: get(dm.get_dictionary(Language::from_spec("de", "AT")), Language::from_spec("de", "AT")); break;
      case 5: add("p", false); break;
      case 6: add("q", false); break;
      case 7: remove("p"); break;
      case 8: changed(); dm.set_charset(c.charset = "ISO-8859-1"); break;
      case 9: changed(); dm.set_use_fuzzy(c.fuzzy = false); break;
      case 10: add("r", true); break;
      case 11: get(dm.get_dictionary(Language::from_spec("fr")), Language::from_spec("fr")); break;
      case 12: c.lang = Language(); dm.set_language(c.lang); break;
      case 13: changed(); dm.set_charset(c.charset = "UTF-8"); break;
      case 14: changed(); dm.set_use_fuzzy(c.fuzzy = true); break;
      case 15: remove("q"); break;
      case 16: changed(); dm.set_charset(c.charset = "NOSUCH"); break;
      case 17: dm.get_languages(); break;
      case 18: c.lang = Language::from_spec("fr"); dm.set_language(c.lang); break;
      case 20: changed(); dm.set_charset(c.charset = "UTF-16LE"); break;
      case 21: changed(); dm.set_charset(c.charset = "UTF-16BE"); break;
      case 22: changed(); dm.set_charset(c.charset = "ISO-8859-2"); break;
      case 23: changed(); dm.set_charset(c.charset = "utf-8"); break;
      default: remove("absent"); break;
    }
    if (dm.get_language() != c.lang) throw Bad{"the current language is " + dm.get_language().str() + " instead of " + c.lang.str()};
    if (dm.get_use_fuzzy() != c.fuzzy) throw Bad{"get_use_fuzzy"};
    still();
  }
  void add(const char* d, bool first) { size_t n = c.path.size(); path_add(c.path, d, first); if (c.path.size() != n) changed(); dm.add_directory(d, first); }
  void remove(const char* d) { size_t n = c.path.size(); path_remove(c.path, d); if (c.path.size() != n) changed(); dm.remove_directory(d); }
  void last() { get(dm.get_dictionary(), c.lang); for (auto& l : {Language::from_spec("de", "AT"), Language::from_spec("de"), Language::from_spec("fr")}) get(dm.get_dictionary(l), l); get(dm.get_dictionary(), c.lang); still(); }
};
void run(const std::vector<std::pair<int, int>>& ops, int managers) {
  std::vector<std::unique_ptr<Mgr>> m; for (int i = 0; i < managers; ++i) m.emplace_back(new Mgr);
  for (auto& o : ops) m[static_cast<size_t>(o.first)]->op(o.second);
  for (auto& k : m) k->last();
}
// configuration and loaded languages after n operations
uint64_t abstract(const std::vector<std::pair<int, int>>& ops, size_t n) {
  Path p[2]; int cs[2] = {0, 0}, fz[2] = {1, 1}, lang[2] = {-1, -1}; unsigned loaded[2] = {0, 0};
  for (size_t i = 0; i < n; ++i) { int m = ops[i].first, o = ops[i].second; Path old = p[m];
    switch (o) { case 0: lang[m] = 0; break; case 1: lang[m] = 1; break; case 12: lang[m] = -1; break; case 18: lang[m] = 2; break; case 2: if (lang[m] >= 0) loaded[m] |= (lang[m] == 1 ? 3u : 1u << lang[m]) | 8u; break; case 3: loaded[m] |= 1; break; case 4: loaded[m] |= 3; break; case 11: loaded[m] |= 4; break;
      case 5: path_add(p[m], "p", false); break; case 6: path_add(p[m], "q", false); break; case 10: path_add(p[m], "r", true); break; case 7: path_remove(p[m], "p"); break; case 15: path_remove(p[m], "q"); break;
      case 8: cs[m] = 1; loaded[m] = 0; break; case 13: cs[m] = 0; loaded[m] = 0; break; case 16: cs[m] = 2; loaded[m] = 0; break; case 20: case 21: case 22: case 23: cs[m] = o; loaded[m] = 0; break; case 9: fz[m] = 0; loaded[m] = 0; break; case 14: fz[m] = 1; loaded[m] = 0; break; default: break; }
    if (p[m] != old) loaded[m] = 0; if (o <= 1 || o == 12 || o == 18) loaded[m] &= 7u; }
  std::string k; for (int m = 0; m < 2; ++m) k += str(p[m]) + "|" + std::to_string(cs[m] * 100 + fz[m] * 50 + lang[m]) + "|" + std::to_string(loaded[m]) + ";";
  return mc::hash(k);
}
void sequences(Ctx& x, int depth, const std::vector<int>& alphabet, int managers, const std::vector<int>& before) {
  std::vector<std::pair<int, int>> ops; std::string log;
  for (int o : before) { ops.push_back({0, o}); log += std::string(NAMES[o]) + " "; }
  for (int i = 0; i < depth; ++i) { int m = managers > 1 ? x.choose(managers) : 0; int o = alphabet[static_cast<size_t>(x.choose(static_cast<int>(alphabet.size())))]; ops.push_back({m, o}); log += (m ? "second." : "") + std::string(NAMES[o]) + " "; }
  x.note(log);
  size_t a = __sanitizer_get_current_allocated_bytes();
  try { run(ops, managers); } catch (Bad& b) { x.fail("after " + log + ":\n" + b.msg); }
  size_t b = __sanitizer_get_current_allocated_bytes();
  x.step(ops.size() + 5);
  if (b > a) { size_t l = leaked([&] { run(ops, managers); }); if (l) x.fail(std::to_string(l) + " bytes are never freed by " + log); }
  for (size_t n = 1; n <= ops.size(); ++n) x.state(abstract(ops, n));
}
// the regional dictionaries of every known language, cached and not
void all_languages(Ctx& x) {
  const size_t n = sizeof ref::LANGS / sizeof *ref::LANGS; auto& g = ref::LANGS[static_cast<size_t>(x.choose(static_cast<int>(n)))]; int order = x.choose(3);
  Language l = Language::from_spec(g.l, g.c, g.m), base = Language::from_spec(g.l); x.note(ref::Lang{g.l, g.c, g.m}.str());
  if (!l) { x.trivial(); return; }
  auto f = std::make_shared<Files>(); put(*f, "p", std::string(g.l) + ".po"); if (l != base) put(*f, "q", l.str() + ".po");
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p"); dm.add_directory("q");
  if (order == 1 && base) dm.get_dictionary(base);
  if (order == 2) dm.set_language(l);
  Dictionary& d = order == 2 ? dm.get_dictionary() : dm.get_dictionary(l); x.step();
  std::string j = judge(snap(d), *f, {"p", "q"}, l); if (!j.empty()) x.fail(j);
  if (&dm.get_dictionary(l) != &d && answer(dm.get_dictionary(l)) != answer(d)) x.fail("two requests for " + l.str() + " differ");
  x.state(l.str());
}
// many dictionaries at a time
void many(Ctx& x) {
  const int n = static_cast<int>(sizeof ref::LANGS / sizeof *ref::LANGS); int k = x.choose(2) ? n : 1 + x.choose(40), from = x.choose(3) * (n / 3), order = x.choose(2);
  std::vector<Language> ls; for (int i = 0; i < k; ++i) { auto& g = ref::LANGS[static_cast<size_t>((from + (order ? k - 1 - i : i)) % n)]; Language l = Language::from_spec(g.l, g.c, g.m); if (l) ls.push_back(l); }
  x.note(std::to_string(k) + " languages from number " + std::to_string(from) + (order ? ", backwards" : ""));
  auto f = std::make_shared<Files>(); for (auto& l : ls) { put(*f, "p", l.str() + ".po"); }
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  std::vector<std::pair<Dictionary*, std::string>> held;
  for (auto& l : ls) { dm.set_language(l); Dictionary& d = dm.get_dictionary(); std::string j = judge(snap(d), *f, {"p"}, l); if (!j.empty()) x.fail(l.str() + ": " + j); held.push_back({&d, answer(d)}); x.step(); }
  for (size_t i = 0; i < held.size(); ++i) { if (answer(*held[i].first) != held[i].second) x.fail("the dictionary of " + ls[i].str() + " changed while others were loaded"); if (answer(dm.get_dictionary(ls[i])) != held[i].second) x.fail("a second request for " + ls[i].str() + " differs"); }
  x.state(static_cast<uint64_t>(k * 10 + from + order));
}
std::vector<int> ids(std::initializer_list<int> v) { return v; }
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e;
  std::vector<int> every; for (int i = 0; i < NOPS; ++i) every.push_back(i);
  auto exp = [&](const char* name, int depth, std::vector<int> al, int managers, std::vector<int> before) {
    e.push_back({name, "all sequences of " + std::to_string(depth) + " of " + std::to_string(al.size()) + " operations" + (managers > 1 ? " on either of two managers" : "") + (before.empty() ? "" : " after " + std::to_string(before.size()) + " set-up operations") + ", then all requests; memory balance of each",
      [=](Ctx& x) { sequences(x, depth, al, managers, before); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500; };
  exp("all-operations", t ? 4 : 3, every, 1, {5, 1});
  exp("from-start", t ? 4 : 3, every, 1, {});
  exp("main", t ? 7 : 5, ids({0, 1, 2, 4, 5, 6, 7, 8}), 1, {});
  exp("loaded", t ? 6 : 4, ids({0, 1, 2, 3, 4, 9, 10, 13, 15, 16}), 1, {5, 6, 4, 1, 2});
  exp("charsets", t ? 6 : 4, ids({2, 4, 8, 13, 16, 20, 21, 22, 23}), 1, {5, 1});
  exp("two-managers", t ? 4 : 3, ids({1, 2, 4, 5, 6, 7, 8, 9}), 2, {5, 4});
  e.push_back({"every-language", "every known language as request, with files of it and of its base language in two directories, 3 request orders", all_languages}); e.back().shard_depth = 1;
  e.push_back({"many-languages", "1 to 40 and all known languages loaded by one manager, all dictionaries held and asked again", many});
  return e;
}
}
mc::Property mc::property = {"C12", "model_checking", "", {"an answer is all entries, the plural rule, the charset and a set of lookups including ones that use the fallback dictionary", "set_charset and set_use_fuzzy end the validity of dictionaries obtained before even when the value is the same"}, all};
