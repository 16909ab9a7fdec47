// C13: which file of which directory is loaded, and which directory wins.
#include "mgr.hpp"
#include "langs.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
const Strings NAMES = {"de.po", "de_AT.po", "de_at.po", "de_DE.po", "de_CH.po", "de_XX.po", "de_AT.UTF-8.po", "sr.po", "sr@latin.po", "sr_YU.po", "sr_yu@latin.po", "sr@Latn.po", "fr.po", "xx.po", "de.mo", "de_AT.pot", ".po", "po", "", "a", "de.po.bak", "de.PO", "deutsch.po", "_AT.po"};
const std::vector<Language>& requests() { static const std::vector<Language> v = {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("de", "CH"), Language::from_spec("sr"), Language::from_spec("sr", "YU"), Language::from_spec("sr", "", "latin"), Language::from_spec("sr", "", "ije"), Language::from_spec("fr", "CA"), Language::from_spec("nl")}; return v; }
std::shared_ptr<Files> fresh_files() { return std::make_shared<Files>(); }
void ask(Ctx& x, DictionaryManager& dm, const Files& f, const Path& path, const Language& l, const std::string& ctx) {
  Dictionary& d = dm.get_dictionary(l); x.step();
  Snap s = snap(d);
  std::string j = judge(s, f, path, l); if (!j.empty()) x.fail(ctx + j);
  if (!l.get_country().empty()) {
    Language base = Language::from_spec(l.get_language());
    Dictionary& b = dm.get_dictionary(base); Snap sb = snap(b);
    std::string k = judge(sb, f, path, base); if (!k.empty()) x.fail(ctx + "(base language of " + l.str() + ") " + k);
    for (auto& e : sb.plain) if (!s.plain.count(e.first) && e.first != "n" && d.translate(e.first) != e.second[0]) x.fail(ctx + "request " + l.str() + " does not fall back to the base language for " + e.first);
  }
  x.state(s.hash());
}
std::string listing(const Files& f) { std::string o; for (auto& d : f.dirs) { o += "directory " + d.first + ":"; for (auto& e : d.second) o += " " + mc::quote(e.first); o += "\n"; } return o; }
// a subset of `names` in any order
void fill(Ctx& x, Files& f, const std::string& dir, const Strings& names, int most) {
  f.dirs[dir]; std::vector<size_t> left(names.size()); for (size_t i = 0; i < left.size(); ++i) left[i] = i;
  for (int n = 0; n < most; ++n) { int c = x.choose(static_cast<int>(left.size()) + 1); if (!c) return; put(f, dir, names[left[static_cast<size_t>(c - 1)]]); left.erase(left.begin() + c - 1); }
}
void single(Ctx& x, const Strings& names, int most) {
  auto f = fresh_files(); fill(x, *f, "p", names, most); std::string ctx = listing(*f); x.note(ctx);
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  for (auto& r : requests()) ask(x, dm, *f, {"p"}, r, ctx);
}
void several(Ctx& x, const Strings& names, int dirs, int most) {
  static const Strings dn = {"p", "q", "r"}; auto f = fresh_files(); Path path; std::string adds;
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f)));
  for (int i = 0; i < dirs; ++i) fill(x, *f, dn[static_cast<size_t>(i)], names, most);
  for (int i = 0; i < dirs; ++i) { bool first = x.choose(2); adds += "add_directory(" + dn[static_cast<size_t>(i)] + (first ? ", precedence) " : ") "); dm.add_directory(dn[static_cast<size_t>(i)], first); path_add(path, dn[static_cast<size_t>(i)], first); }
  std::string ctx = listing(*f) + adds + "\n"; x.note(ctx);
  for (size_t i : {0u, 1u, 2u, 5u}) ask(x, dm, *f, path, requests()[i], ctx);
}
// all pairs of known languages as file name and request
void pairs(Ctx& x) {
  const int n = sizeof ref::LANGS / sizeof *ref::LANGS; auto& a = ref::LANGS[x.choose(n)]; int low = x.choose(5);
  Language la = Language::from_spec(a.l, a.c, a.m); std::string name = la.str() + ".po";
  if (low) { if (!*a.c) { x.trivial(); return; } std::string c = a.c; for (char& ch : c) ch = static_cast<char>(tolower(ch)); if (low == 2) c[0] = a.c[0]; if (low == 3) c[1] = a.c[1]; name = std::string(a.l) + "_" + c + (low == 4 ? ".UTF-8" : "") + (*a.m ? std::string("@") + a.m : "") + ".po"; }
  auto f = fresh_files(); put(*f, "p", name); std::string ctx = listing(*f); x.note(ctx);
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  if (denotes(name) != la) x.fail("the name " + name + " denotes " + denotes(name).str());
  for (auto& b : ref::LANGS) { Language lb = Language::from_spec(b.l, b.c, b.m); std::string j = judge(snap(dm.get_dictionary(lb)), *f, {"p"}, lb); x.step(); if (!j.empty()) x.fail(ctx + j); }
  x.state(name);
}
// all pairs of variants of one language code in one directory, all requests for that code
void families(Ctx& x) {
  static const std::vector<std::vector<Language>> fam = [] { std::map<std::string, std::vector<Language>> m; for (auto& g : ref::LANGS) m[g.l].push_back(Language::from_spec(g.l, g.c, g.m)); std::vector<std::vector<Language>> r; for (auto& e : m) if (e.second.size() > 1) r.push_back(e.second); return r; }();
  auto& v = fam[static_cast<size_t>(x.choose(static_cast<int>(fam.size())))]; int n = static_cast<int>(v.size());
  int i = x.choose(n), j = x.choose(n - 1); if (j >= i) ++j;
  auto f = fresh_files(); put(*f, "p", v[static_cast<size_t>(i)].str() + ".po"); put(*f, "p", v[static_cast<size_t>(j)].str() + ".po"); std::string ctx = listing(*f); x.note(ctx);
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  for (auto& r : v) ask(x, dm, *f, {"p"}, r, ctx);
}
// the wanted files at every place of a long listing, or in a directory at every place of a long search path
void ladder(Ctx& x) {
  static const int N[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}; const int all_n = static_cast<int>(sizeof ref::LANGS / sizeof *ref::LANGS);
  int n = N[x.choose(21)], m = N[x.choose(21)], what = x.choose(3), fill_ = x.choose(3); auto f = fresh_files(); Path path; DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f)));
  static const Strings wanted[3] = {{"de.po"}, {"de.po", "de_AT.po"}, {"de_AT.po", "de.po"}}; auto& w = wanted[what];
  auto other = [&](int i) -> std::string { if (fill_ == 0) return "xx" + std::to_string(i) + ".po"; if (fill_ == 1) return "readme" + std::to_string(i); auto& l = ref::LANGS[i % all_n]; if (std::string(l.l) == "de") return "f" + std::to_string(i); return Language::from_spec(l.l, l.c, l.m).str() + ".po"; };
  std::string shape; if (x.choose(2)) {
    shape = "one directory"; for (int i = 0; i < n; ++i) f->dirs["p"].push_back({other(i), ""}); for (auto& k : w) put(*f, "p", k); for (int i = 0; i < m; ++i) f->dirs["p"].push_back({other(n + i), ""}); dm.add_directory("p"); path.push_back("p");
  } else {
    shape = "many directories"; for (int i = 0; i < n + 1 + m; ++i) { std::string d = "d" + std::to_string(i); if (i == n || i % 5 == 4) for (auto& k : w) put(*f, d, k); else if (i % 3 == 0) f->dirs[d].push_back({other(i), ""}); else if (i % 3 == 1) f->dirs[d]; dm.add_directory(d, i % 7 == 6); path_add(path, d, i % 7 == 6); }
  }
  std::string ctx = shape + ": " + std::to_string(n) + " before and " + std::to_string(m) + " behind the wanted ones, filling " + std::to_string(fill_) + ", wanted " + std::to_string(what) + "\n"; x.note(ctx);
  for (auto& l : {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("de", "CH")}) { std::string j = judge(snap(dm.get_dictionary(l)), *f, path, l); x.step(); if (!j.empty()) x.fail(ctx + j); }
  x.state(ctx);
}
// histories of the search path
void history(Ctx& x, int depth) {
  static std::shared_ptr<Files> f = [] { auto r = fresh_files(); put(*r, "p", "de.po"); put(*r, "p", "fr.po"); put(*r, "q", "de_AT.po"); put(*r, "q", "de.po"); put(*r, "r", "de_CH.po"); put(*r, "", "de_DE.po"); return r; }();
  static const Strings dn = {"p", "q", "r", ""}; DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); Path path; std::string log;
  const Language at = Language::from_spec("de", "AT");
  for (int i = 0; i < depth; ++i) {
    int o = x.choose(11);
    if (o < 4) { log += "add(" + dn[static_cast<size_t>(o)] + ") "; dm.add_directory(dn[static_cast<size_t>(o)]); path_add(path, dn[static_cast<size_t>(o)], false); }
    else if (o < 7) { log += "add(" + dn[static_cast<size_t>(o - 4)] + ", precedence) "; dm.add_directory(dn[static_cast<size_t>(o - 4)], true); path_add(path, dn[static_cast<size_t>(o - 4)], true); }
    else if (o < 10) { log += "remove(" + dn[static_cast<size_t>(o - 7)] + ") "; dm.remove_directory(dn[static_cast<size_t>(o - 7)]); path_remove(path, dn[static_cast<size_t>(o - 7)]); }
    else { log += "get(de_AT) "; ask(x, dm, *f, path, at, log + "\n"); }
  }
  x.note(log);
  ask(x, dm, *f, path, at, log + "\n"); ask(x, dm, *f, path, Language::from_spec("fr"), log + "\n");
}
// directories whose messages overlap in every way: the one of higher priority wins message by message
void overlap(Ctx& x, int dirs, int msgs) {
  static const Strings dn = {"p", "q", "r", "s"}; auto f = fresh_files(); Path path; std::vector<ref::Dict> d(static_cast<size_t>(dirs)); std::string log;
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f)));
  for (int i = 0; i < dirs; ++i) {
    auto& n = dn[static_cast<size_t>(i)]; std::string t = header("UTF-8", "nplurals=2; plural=(n != 1);"); d[static_cast<size_t>(i)].rule = rule(1);
    for (int m = 0; m < msgs; ++m) {
      std::string id = "m" + std::to_string(m), v = n + std::to_string(m); ref::Dict& k = d[static_cast<size_t>(i)];
      switch (x.choose(m == 2 ? 2 : 4)) { case 1: t += "\nmsgid \"" + id + "\"\nmsgstr \"" + v + "\"\n"; k.add(id, v); break; case 2: t += "\nmsgctxt \"c\"\nmsgid \"" + id + "\"\nmsgstr \"c" + v + "\"\n"; k.add_c("c", id, "c" + v); break; case 3: t += "\nmsgid \"P" + id + "\"\nmsgid_plural \"s\"\nmsgstr[0] \"0" + v + "\"\nmsgstr[1] \"1" + v + "\"\n"; k.add("P" + id, Strings{"0" + v, "1" + v}); break; default: break; }
    }
    f->dirs[n] = {{"de.po", t}};
  }
  for (int i = 0; i < dirs; ++i) { bool first = x.choose(2); dm.add_directory(dn[static_cast<size_t>(i)], first); path_add(path, dn[static_cast<size_t>(i)], first); }
  ref::Dict m; m.rule = rule(1);
  for (auto i = path.rbegin(); i != path.rend(); ++i) { auto& s = d[static_cast<size_t>((*i)[0] - 'p')]; for (auto& e : s.plain) m.add(e.first, e.second); for (auto& c : s.ctxt) for (auto& e : c.second) m.add_c(c.first, e.first, e.second); }
  for (auto& e : f->dirs) log += e.first + ": " + e.second[0].second + "\n"; log += "path " + str(path) + "\n"; x.note(log);
  Snap s = snap(dm.get_dictionary(Language::from_spec("de"))), w = snap_of(m); x.step(); x.state(s.hash());
  if (s != w) x.fail(log + diff(s, w));
}
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e;
  static const Strings few = {"de.po", "de_AT.po", "de_at.po", "de_DE.po", "sr@latin.po", "sr.po", "xx.po", "de.mo"};
  static const Strings mid = {"de.po", "de_AT.po", "de_CH.po", "de_DE.po", "sr@latin.po", "sr.po", "sr_YU.po", "xx.po", ".po", "de_ch.po"};
  e.push_back({"one-directory", "all listings of at most " + std::string(t ? "3 of 24" : "2 of 24") + " names in every order, 9 requests", [t](Ctx& x) { single(x, NAMES, t ? 3 : 2); }}); e.back().max_seconds = 2000;
  e.push_back({"one-directory-more", "all listings of at most " + std::string(t ? "5" : "4") + " of 10 names in every order, 9 requests", [t](Ctx& x) { single(x, mid, t ? 5 : 4); }}); e.back().max_seconds = 2500;
  e.push_back({"two-directories", "all pairs of listings of at most 2 of 8 names in every order, all ways of adding them, 4 requests", [](Ctx& x) { several(x, few, 2, 2); }}); e.back().shard_depth = 3; e.back().max_seconds = 2000;
  e.push_back({"three-directories", "all triples of listings of at most " + std::string(t ? "2 of 5" : "1 of 8") + " names, all ways of adding them, 4 requests", [t](Ctx& x) { if (t) several(x, Strings(few.begin(), few.begin() + 5), 3, 2); else several(x, few, 3, 1); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500;
  e.push_back({"pairs", "every known language as file name, also with the country in lower or mixed case or a codeset, x every known language as request", pairs}); e.back().shard_depth = 1;
  e.push_back({"families", "all ordered pairs of variants of one language code as files x all variants as request", families}); e.back().shard_depth = 2;
  e.push_back({"ladder", "21 x 21 numbers (up to 200) of files or directories before and behind the wanted ones, 3 fillings, 3 wanted sets", ladder}); e.back().shard_depth = 3; e.back().max_seconds = 1500;
  int d = t ? 7 : 5;
  e.push_back({"path-histories", "all sequences of " + std::to_string(d) + " of 11 operations (add, add with precedence, remove, request) over 4 directories, then two requests", [d](Ctx& x) { history(x, d); }}); e.back().shard_depth = 3; e.back().max_seconds = 3000;
  e.push_back({"overlap", "all ways in which " + std::string(t ? "4 directories share 2" : "3 directories share 2") + " messages (absent, plain, contextual, plural), all ways of adding them", [t](Ctx& x) { overlap(x, t ? 4 : 3, 2); }}); e.back().shard_depth = 3; e.back().max_seconds = 2000;
  return e;
}
}
mc::Property mc::property = {"C13", "model_checking", "", {"the language a locale string denotes and the match score are taken from the library (C10 and C11 decide them)", "among names with the same highest score any one may be chosen"}, all};
