// C14: the set of available languages.
#include "mgr.hpp"
#include "langs.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
std::set<Language> expected(const Files& f, const Path& path) {
  std::set<Language> r;
  for (auto& d : path) { auto i = f.dirs.find(d); if (i == f.dirs.end()) continue; for (auto& e : i->second) if (is_po(e.first)) { Language l = denotes(e.first); if (l) r.insert(l); } }
  return r;
}
std::string names(const std::set<Language>& s) { std::set<std::string> o; for (auto& l : s) o.insert(l ? l.str() : "(undefined)"); std::string r; for (auto& e : o) r += e + " "; return r; }
void check(Ctx& x, DictionaryManager& dm, Files& f, const Path& path, const std::string& ctx, bool serve) {
  std::set<Language> s = dm.get_languages(), w = expected(f, path); x.step();
  for (auto& l : s) if (!l) x.fail(ctx + "the available languages contain an undefined one: " + names(s));
  if (s != w) x.fail(ctx + "available languages: " + names(s) + "\nexpected: " + names(w));
  x.state(names(s));
  if (serve) for (auto& l : s) {
    Snap d = snap(dm.get_dictionary(l)); auto src = sources(d); bool any = false; x.step();
    for (auto& e : src) for (auto& n : e.second) any |= denotes(n) == l;
    if (!any) x.fail(ctx + "available language " + l.str() + " is not served from a file that denotes it");
  }
}
const Strings NAMES = {"de.po", "de_AT.po", "de_at.po", "de_At.po", "de_XX.po", "de_AT.UTF-8.po", "de_at.utf8.po", "sr@latin.po", "sr_yu@latin.po", "ca_es@valencia.po", "xx.po", "xx_DE.po", "de.mo", "de.pot", ".po", "po", "", "a", "de.po.bak", "de.PO", "deutsch.po", "_AT.po", "de_.po", "po.po", "pt_BR.po", "x.po", "..", ".", "C.po", "POSIX.po"};
void fill(Ctx& x, Files& f, const std::string& dir, const Strings& names, int most) {
  f.dirs[dir]; std::vector<size_t> left(names.size()); for (size_t i = 0; i < left.size(); ++i) left[i] = i;
  for (int n = 0; n < most; ++n) { int c = x.choose(static_cast<int>(left.size()) + 1); if (!c) return; put(f, dir, names[left[static_cast<size_t>(c - 1)]]); left.erase(left.begin() + c - 1); }
}
std::string listing(const Files& f) { std::string o; for (auto& d : f.dirs) { o += "directory " + d.first + ":"; for (auto& e : d.second) o += " " + mc::quote(e.first); o += "\n"; } return o; }
void single(Ctx& x, int most) {
  auto f = std::make_shared<Files>(); fill(x, *f, "p", NAMES, most); std::string ctx = listing(*f); x.note(ctx);
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  check(x, dm, *f, {"p"}, ctx, true); check(x, dm, *f, {"p"}, ctx + "(asked again) ", false);
}
void all_names(Ctx& x) {
  const int n = sizeof ref::LANGS / sizeof *ref::LANGS; auto& a = ref::LANGS[x.choose(n)]; int form = x.choose(5); std::string c = a.c;
  for (char& ch : c) if (form == 1 || (form == 2 && &ch != &c[0]) || form == 4) ch = static_cast<char>(tolower(ch));
  std::string name = std::string(a.l) + (c.empty() ? "" : "_" + c) + (form >= 3 ? ".UTF-8" : "") + (*a.m ? std::string("@") + a.m : "") + ".po";
  auto f = std::make_shared<Files>(); put(*f, "p", name); std::string ctx = listing(*f); x.note(ctx);
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  std::set<Language> s = dm.get_languages(), w = {Language::from_spec(a.l, a.c, a.m)}; x.step();
  if (s != w) x.fail(ctx + "available languages: " + names(s) + "\nexpected: " + names(w));
  check(x, dm, *f, {"p"}, ctx, true);
}
// several directories, each with one of a number of listings or missing altogether, some added with precedence
void directories(Ctx& x, int dirs) {
  static const std::vector<Strings> L = {{}, {"<missing>"}, {"xx.po"}, {"readme", "de.mo"}, {"de.po"}, {"de_AT.po", "xx.po"}, {"xx.po", "de_at.po", "fr.po"}, {"fr.po", "de.po"}, {"", ".po", "sr@latin.po"}};
  static const Strings dn = {"p", "", "r/s", "p.po"}; auto f = std::make_shared<Files>(); Path path; std::string adds; DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f)));
  for (int i = 0; i < dirs; ++i) {
    auto& l = L[static_cast<size_t>(x.choose(static_cast<int>(L.size())))]; auto& d = dn[static_cast<size_t>(i)]; bool first = x.choose(2);
    if (l.empty() || l[0] != "<missing>") { f->dirs[d]; for (auto& n : l) f->dirs[d].push_back({n, header("UTF-8") + "\nmsgid " + q("file " + mark(d, n)) + "\nmsgstr \"yes\"\n"}); }
    dm.add_directory(d, first); path_add(path, d, first); adds += mc::quote(d) + (first ? " (first) " : " ");
  }
  std::string ctx = listing(*f) + "added " + adds + "\n"; x.note(ctx); check(x, dm, *f, path, ctx, false); check(x, dm, *f, path, ctx + "(asked again) ", false);
}
// the first n of all known languages, forwards, backwards or the long names first, in one or several directories
void many(Ctx& x) {
  const int all_n = static_cast<int>(sizeof ref::LANGS / sizeof *ref::LANGS); int n = x.choose(all_n) + 1, order = x.choose(4), dirs = x.choose(3);
  Strings v; for (int i = 0; i < n; ++i) { auto& l = ref::LANGS[order == 1 ? all_n - 1 - i : i]; v.push_back(Language::from_spec(l.l, l.c, l.m).str() + ".po"); }
  if (order >= 2) std::stable_sort(v.begin(), v.end(), [order](const std::string& a, const std::string& b) { return order == 2 ? a.size() > b.size() : a.size() < b.size(); });
  auto f = std::make_shared<Files>(); Path path; int nd = dirs == 0 ? 1 : dirs == 1 ? 3 : n; DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f)));
  for (int i = 0; i < nd; ++i) { std::string d = "d" + std::to_string(i); f->dirs[d]; path.push_back(d); dm.add_directory(d); }
  for (int i = 0; i < n; ++i) { std::string d = "d" + std::to_string(i % nd); f->dirs[d].push_back({v[static_cast<size_t>(i)], header("UTF-8") + "\nmsgid " + q("file " + mark(d, v[static_cast<size_t>(i)])) + "\nmsgstr \"yes\"\n"}); if (i % 7 == 3) f->dirs[d].push_back({"xx" + std::to_string(i) + ".po", ""}); }
  std::string ctx = std::to_string(n) + " languages, order " + std::to_string(order) + ", in " + std::to_string(nd) + " directories: "; x.note(ctx); check(x, dm, *f, path, ctx, false);
  if (n % 41 == 0) { Language l = denotes(v.back()); check(x, dm, *f, path, ctx, nd == 1); (void)l; }
}
// histories of search path changes, changes of the file system, requests and questions
void history(Ctx& x, int depth) {
  auto f = std::make_shared<Files>(); put(*f, "p", "de.po"); put(*f, "p", "xx.po"); put(*f, "q", "de_at.po"); put(*f, "q", "fr.po"); put(*f, "q", "readme.txt"); put(*f, "r", "de.po");
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); Path path; std::string log;
  Dictionary* held = nullptr; Snap before; bool added = false; Language lang = Language::from_spec("de", "AT");
  const char* dn[] = {"p", "q", "r"};
  for (int i = 0; i < depth; ++i) {
    int o = x.choose(10);
    if (o < 3) { log += std::string("add(") + dn[o] + ") "; dm.add_directory(dn[o], o == 2); size_t k = path.size(); path_add(path, dn[o], o == 2); if (path.size() != k) held = nullptr; }
    else if (o < 6) { log += std::string("remove(") + dn[o - 3] + ") "; dm.remove_directory(dn[o - 3]); size_t k = path.size(); path_remove(path, dn[o - 3]); if (path.size() != k) held = nullptr; }
    else if (o == 6) { log += "get_languages "; check(x, dm, *f, path, "after " + log + "\n", false); }
    else if (o == 7) { log += "get(de_AT) "; Dictionary& d = dm.get_dictionary(lang); held = &d; before = snap(d); }
    else if (o == 8) { log += "set_language(fr) "; lang = Language::from_spec("fr"); dm.set_language(lang); dm.get_dictionary(); }
    else { log += "(a file nl.po appears in p) "; if (!added) { added = true; put(*f, "p", "nl.po"); } }
  }
  x.note(log);
  Language cur = dm.get_language();
  check(x, dm, *f, path, "after " + log + "\n", false);
  if (held && snap(*held) != before) x.fail("after " + log + "a dictionary has changed");
  if (dm.get_language() != cur) x.fail("after " + log + "asking changes the current language");
  check(x, dm, *f, path, "after " + log + "get_languages ", false);
  // asking has not changed what is loaded
  for (const char* s : {"de", "fr"}) { Language l = Language::from_spec(s); std::string j = judge(snap(dm.get_dictionary(l)), *f, path, l); if (!j.empty() && !added) x.fail("after " + log + "get_languages, " + j); }
}
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e;
  e.push_back({"one-directory", "all listings of at most " + std::string(t ? "4" : "3") + " of 30 names in every order, each member requested", [t](Ctx& x) { single(x, t ? 4 : 3); }}); e.back().max_seconds = 2500;
  e.push_back({"every-name", "every known language as file name, country in upper, lower or mixed case, with and without codeset", all_names});
  int nd = t ? 4 : 3;
  e.push_back({"directories", "all ways to give " + std::to_string(nd) + " directories one of 9 listings (none, missing, empty, unknown names only, ...), each added at the end or with precedence", [nd](Ctx& x) { directories(x, nd); }}); e.back().shard_depth = 3;
  e.push_back({"many", "the first n of the known languages for all n, 4 orders, in one, three or n directories", many}); e.back().shard_depth = 2; e.back().max_seconds = 1500;
  int d = t ? 6 : 5;
  e.push_back({"histories", "all sequences of " + std::to_string(d) + " of 10 operations (search path, file system, requests, questions)", [d](Ctx& x) { history(x, d); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500;
  return e;
}
}
mc::Property mc::property = {"C14", "model_checking", "", {"the language a locale string denotes is taken from the library (C10 decides it)"}, all};
