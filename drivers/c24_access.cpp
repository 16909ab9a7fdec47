// C24: files are touched only when a request needs them, only those it needs, and they are let go of.
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include "mgr.hpp"
#include "tinygettext/unix_file_system.hpp"
using namespace mgr;
using mc::Ctx;

// ---- every way of reaching the real file system, as seen by the library and libstdc++ ----
namespace { bool watch; std::vector<std::string> real_calls; bool writes; void saw(const std::string& what, const char* p) { if (watch) { watch = false; real_calls.push_back(what + " " + (p ? p : "?")); watch = true; } }
template <class F> F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); } }
extern "C" {
#define OPENER(NAME) int NAME(const char* p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } if ((flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC)) writes |= watch; saw("open", p); static auto f = next<int (*)(const char*, int, ...)>(#NAME); return f(p, flags, m); }
OPENER(open)
OPENER(open64)
#define OPENERAT(NAME) int NAME(int d, const char* p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } if ((flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC)) writes |= watch; saw("open", p); static auto f = next<int (*)(int, const char*, int, ...)>(#NAME); return f(d, p, flags, m); }
OPENERAT(openat)
OPENERAT(openat64)
#define FOPENER(NAME) FILE* NAME(const char* p, const char* mode) { if (mode[0] != 'r' || strchr(mode, '+')) writes |= watch; saw("open", p); static auto f = next<FILE* (*)(const char*, const char*)>(#NAME); return f(p, mode); }
FOPENER(fopen)
FOPENER(fopen64)
DIR* opendir(const char* p) { saw("list", p); static auto f = next<DIR* (*)(const char*)>("opendir"); return f(p); }
#define ONE(NAME) int NAME(const char* p) { writes |= watch; saw(#NAME, p); static auto f = next<int (*)(const char*)>(#NAME); return f(p); }
ONE(unlink)
ONE(remove)
ONE(rmdir)
int mkdir(const char* p, mode_t m) { writes |= watch; saw("mkdir", p); static auto f = next<int (*)(const char*, mode_t)>("mkdir"); return f(p, m); }
int creat(const char* p, mode_t m) { writes |= watch; saw("creat", p); static auto f = next<int (*)(const char*, mode_t)>("creat"); return f(p, m); }
int truncate(const char* p, off_t n) { writes |= watch; saw("truncate", p); static auto f = next<int (*)(const char*, off_t)>("truncate"); return f(p, n); }
int rename(const char* p, const char* q) { writes |= watch; saw("rename", p); static auto f = next<int (*)(const char*, const char*)>("rename"); return f(p, q); }
int chmod(const char* p, mode_t m) { writes |= watch; saw("chmod", p); static auto f = next<int (*)(const char*, mode_t)>("chmod"); return f(p, m); }
}
namespace {
struct Watch { Watch() { real_calls.clear(); writes = false; watch = true; } ~Watch() { watch = false; } };

// ---- a file system that records, and whose streams are counted ----
struct Access { bool file; std::string name; };
struct Rec { std::map<std::string, std::vector<std::pair<std::string, std::string>>> dirs; std::vector<Access> log; int live = 0; std::string missing; bool broken = false; };
struct CountedStream : std::istringstream { Rec* r; CountedStream(Rec* rec, const std::string& s) : std::istringstream(s), r(rec) { ++r->live; } ~CountedStream() override { --r->live; } };
struct RecFS : FileSystem {
  Rec* r; explicit RecFS(Rec* rec) : r(rec) {}
  std::vector<std::string> open_directory(const std::string& p) override { r->log.push_back({false, p}); std::vector<std::string> v; for (auto& e : r->dirs[p]) v.push_back(e.first); return v; }
  std::unique_ptr<std::istream> open_file(const std::string& n) override { r->log.push_back({true, n}); if (r->broken) throw std::runtime_error("cannot open"); for (auto& d : r->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == n) return std::unique_ptr<std::istream>(new CountedStream(r, e.second)); return nullptr; }
};
std::string show(const std::vector<Access>& v, size_t from = 0) { std::string o; for (size_t i = from; i < v.size(); ++i) o += std::string(v[i].file ? "opens " : "lists ") + v[i].name + "; "; return o; }
std::string squeeze(const std::string& s) { std::string o; for (char c : s) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c; return o; }
// may this be opened for a request?
std::string judge_open(const Rec& r, const Path& path, const std::string& name, const Language& want) {
  for (auto& d : path) { auto i = r.dirs.find(d); if (i == r.dirs.end()) continue;
    for (auto& e : i->second) if (squeeze(d + "/" + e.first) == squeeze(name)) {
      if (!is_po(e.first)) return "is not a .po file";
      Language l = denotes(e.first); if (!l) return "is for no language known";
      if (Language::match(want, l) > 0 || Language::match(Language::from_spec(want.get_language()), l) > 0) return ""; return "is for another language"; } }
  return "is not a listed file of the search path";
}
std::string judge_access(const Rec& r, size_t from, const Path& path, const Language* want, bool may_open) {
  std::map<std::string, int> opens;      // by directory: one for the language, one for its base language
  for (size_t i = from; i < r.log.size(); ++i) { const Access& a = r.log[i];
    if (!a.file) { bool in = false; for (auto& d : path) in |= squeeze(d + "/") == squeeze(a.name + "/"); if (!in) return "directory " + a.name + " is listed, which is not in the search path"; continue; }
    if (!may_open) return a.name + " is opened";
    std::string w = judge_open(r, path, a.name, *want); if (!w.empty()) return a.name + " is opened, which " + w;
    if (++opens[a.name.substr(0, a.name.rfind('/'))] > (want->get_country().empty() ? 1 : 2)) return "more files are opened in a directory than are needed: " + show(r.log, from); }
  return "";
}
const Language& L(int i) { static const std::vector<Language> v = {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("fr"), Language::from_spec("pt", "BR")}; return v[static_cast<size_t>(i)]; }
void tree(Rec& r) {
  auto f = [&](const char* d, const char* n, const std::string& c) { r.dirs[d].push_back({n, c}); };
  for (const char* d : {"p", "q", "r"}) { f(d, "de.po", content(d, "de.po")); f(d, "notes.txt", "x"); f(d, "fr.po", d[0] == 'q' ? header("NO-SUCH") : content(d, "fr.po")); f(d, "xx.po", "x"); f(d, "sv.po", content(d, "sv.po")); f(d, "pt.po", content(d, "pt.po")); }
  f("p", "de_AT.po", content("p", "de_AT.po") + "msgid bad\n"); f("q", "de_DE.po", content("q", "de_DE.po")); f("q", "pt_br.po", content("q", "pt_br.po")); r.dirs["empty"];
}
// ---- histories of one manager ----
const int NOPS = 20;
void histories(Ctx& x, int len, const std::vector<int>& ops) {
  Logs::silence(); Rec r; tree(r); std::string log; Path path; bool alive = true; (void)alive;
  auto bad = [&](const std::string& m) { x.fail(log + ": " + m); };
  {
    Watch w; DictionaryManager m(std::unique_ptr<FileSystem>(new RecFS(&r))); Language cur; std::set<Language> have; Dictionary* last = nullptr;
    if (!r.log.empty()) bad("creating a manager " + show(r.log));
    m.add_directory("p"); m.add_directory("q"); path = {"p", "q"}; if (!r.log.empty()) bad("adding directories " + show(r.log));
    for (int i = 0; i < len; ++i) {
      int o = ops[static_cast<size_t>(x.choose(static_cast<int>(ops.size())))]; size_t from = r.log.size(); x.step(); Language want; bool request = false, config = false; watch = false; std::string rest; watch = true;
      switch (o) {
        case 0: case 1: case 2: case 3: want = L(o); request = true; log += "get_dictionary(" + want.str() + ") "; last = &m.get_dictionary(want); break;
        case 4: log += "get_dictionary() "; want = cur; request = static_cast<bool>(cur); last = &m.get_dictionary(); break;
        case 5: case 6: case 7: case 8: cur = L(o - 5); log += "set_language(" + cur.str() + ") "; m.set_language(cur); break;
        case 9: cur = Language(); log += "set_language(none) "; m.set_language(cur); break;
        case 10: log += "get_languages "; m.get_languages(); rest = judge_access(r, from, path, nullptr, false); if (!rest.empty()) bad(rest); continue;
        case 11: log += "set_charset(UTF-8) "; m.set_charset("UTF-8"); config = true; break;
        case 12: log += "set_charset(ISO-8859-1) "; m.set_charset("ISO-8859-1"); config = true; break;
        case 13: log += "set_use_fuzzy(" + std::to_string(!m.get_use_fuzzy()) + ") "; m.set_use_fuzzy(!m.get_use_fuzzy()); config = true; break;
        case 14: log += "add_directory(r) "; m.add_directory("r"); path_add(path, "r", false); config = true; break;
        case 15: log += "add_directory(empty, first) "; m.add_directory("empty", true); path_add(path, "empty", true); config = true; break;
        case 16: log += "remove_directory(p) "; m.remove_directory("p"); path_remove(path, "p"); config = true; break;
        case 17: log += "remove_directory(r) "; m.remove_directory("r"); path_remove(path, "r"); config = true; break;
        case 18: log += "lookups "; if (last) { last->translate("who"); last->translate("none"); last->translate_ctxt("c", "who"); last->translate_ctxt("c", "none"); last->translate_plural("n", "ns", 2); last->translate_plural("none", "nones", 2); last->translate_ctxt_plural("c", "none", "nones", 2); last->foreach([](const std::string&, const Strings&) {}); } break;
        default: log += "get_language, get_use_fuzzy "; (void)m.get_language(); (void)m.get_use_fuzzy(); break;
      }
      if (config) { have.clear(); last = nullptr; }
      if (request && !have.count(want)) { rest = judge_access(r, from, path, &want, true); if (!rest.empty()) bad(rest); have.insert(want); }
      else if (r.log.size() > from) bad("the last call " + show(r.log, from) + (request ? "although nothing changed since the language was requested before" : ""));
      if (r.live) bad(std::to_string(r.live) + " streams are kept");
    }
    if (!real_calls.empty()) bad("the real file system is used: " + real_calls[0]);
  }
  x.note(log + "\n" + show(r.log)); x.state(log);
}
// ---- listings ----
void listings(Ctx& x, bool thorough) {
  static const Strings names = {"de.po", "de_AT.po", "de_at.po", "de_AT@latin.po", "de.UTF-8.po", "fr.po", "xx.po", "_DE.po", "de.po~", "de.pot", "de.mo", "DE.po", "de_AT.po.bak", ".po", "po", "german.po", "", "de-AT.po", ".de.po", "sr@latin.po", "de .po"};
  Rec r; Path path = {"d"}; std::string log; int most = thorough ? 4 : 3, k = x.choose(most + 1); std::string prev; int from = 0; for (int i = 0; i < k && from < static_cast<int>(names.size()); ++i) { int c = from + x.choose(static_cast<int>(names.size()) - from); const std::string& n = names[static_cast<size_t>(c)]; from = c + 1; r.dirs["d"].push_back({n, "msgid \"who\"\nmsgstr \"x\"\n"}); log += mc::quote(n) + " "; }
  if (x.choose(2)) { r.dirs["e"] = {{"de.po", "x"}, {"fr.po", "y"}}; path.push_back("e"); } r.dirs["f"] = r.dirs["d"];
  static const std::vector<Language> want = {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("fr", "CA"), Language::from_spec("sr", "", "latin"), Language::from_spec("zh", "TW")}; const Language& w = want[static_cast<size_t>(x.choose(5))]; bool broken = x.choose(2);
  log += "request " + w.str(); Logs::silence(); r.broken = broken;
  DictionaryManager m(std::unique_ptr<FileSystem>(new RecFS(&r))); for (auto& d : path) m.add_directory(d);
  m.get_languages(); std::string early = judge_access(r, 0, path, nullptr, false); if (!early.empty()) x.fail(log + ", get_languages: " + early); r.log.clear();
  { Watch watcher; m.get_dictionary(w); x.step(); if (!real_calls.empty()) x.fail(log + ": the real file system is used: " + real_calls[0]); }
  std::string why = judge_access(r, 0, path, &w, true); if (!why.empty()) x.fail(log + ": " + why + " (" + show(r.log) + ")");
  if (r.live) x.fail(log + ": a stream is kept"); x.note(log + ": " + show(r.log)); x.state(show(r.log));
}
// ---- no manager: the rest of the library touches no files ----
void others(Ctx& x) {
  int a = x.choose(11), b = x.choose(11); std::string log = "calls " + std::to_string(a) + ", " + std::to_string(b); Logs::silence();
  auto act = [&](int k) { x.step(); switch (k) {
    case 0: (void)Language::from_env("de_AT.UTF-8@x"); break; case 1: (void)Language::from_name("german"); break; case 2: (void)forms("nplurals=2; plural=(n != 1);").get_plural(3); break;
    case 3: { Dictionary d; parse(header("UTF-8", "nplurals=2; plural=(n != 1);") + "\nmsgid \"a\"\nmsgstr \"b\"\n", d, "/etc/hostname"); d.translate("a"); d.translate("/etc/hostname"); break; }
    case 8: { Dictionary d; parse("", d, "/etc/hostname"); break; } case 9: { Dictionary d; std::istringstream in("x"); in.setstate(std::ios::failbit); POParser::parse("/etc/hostname", in, d); break; } case 10: { Dictionary d; try { parse(header("NO-SUCH"), d, "/etc/hostname"); } catch (std::runtime_error&) {} break; }
    case 4: { Dictionary d; parse("msgid \"a\"\nmsgstr \"b", d, "no/such/file"); break; } case 5: { tinygettext::IConv c("UTF-8", "UTF-8"); c.convert("/etc/passwd"); break; }
    case 6: { DictionaryManager m; m.add_directory("/no/such"); m.add_directory("/etc", true); m.remove_directory("/etc"); m.set_language(L(0)); m.set_charset("KOI8-R"); m.set_use_fuzzy(false); break; }
    default: { Dictionary d; for (int i = 0; i < 100; ++i) d.add_translation("k" + std::to_string(i), "v"); d.translate("x"); d.translate_plural("x", "y", 2); } } };
  { Watch w; act(a); act(b); } if (!real_calls.empty()) x.fail(log + ": the file system is used: " + real_calls[0]); x.note(log); x.state(log);
}
// ---- real directories ----
std::string scratch() { static std::string d; if (d.empty()) { char t[] = "/tmp/c24.XXXXXX"; d = mkdtemp(t); struct Clean { std::string p; pid_t me; ~Clean() { if (getpid() == me) { std::error_code e; std::filesystem::remove_all(p, e); } } }; static Clean c{d, getpid()}; } return d; }
std::string picture(const std::string& d) { std::string o; std::set<std::string> names; for (auto& e : std::filesystem::recursive_directory_iterator(d)) names.insert(e.path().string()); for (auto& n : names) { struct stat s; if (lstat(n.c_str(), &s)) continue; o += n + " " + std::to_string(s.st_mode) + " " + std::to_string(s.st_size) + " " + std::to_string(s.st_mtim.tv_sec) + "." + std::to_string(s.st_mtim.tv_nsec) + " " + std::to_string(s.st_ctim.tv_nsec) + "\n"; } return o; }
int descriptors() { int n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
void real_dirs(Ctx& x, int len) {
  Logs::silence(); const std::string base = scratch() + "/t"; static bool made = false;
  if (!made) { made = true; for (const char* d : {"/p", "/q", "/r"}) { std::filesystem::create_directories(base + d); for (const char* n : {"de.po", "de_AT.po", "fr.po", "notes.txt", "xx.po", "sv.po"}) { std::ofstream(base + d + "/" + n) << content(base + d, n); } std::filesystem::create_directories(base + d + "/sub"); std::ofstream(base + d + "/sub/de.po") << "x"; } std::filesystem::create_directories(base + "/r/pt.po"); }
  std::string log, before = picture(base); int fds = descriptors(); std::vector<std::string> calls; bool wrote;
  Rec r; for (const char* d : {"/p", "/q", "/r"}) for (const char* n : {"de.po", "de_AT.po", "fr.po", "notes.txt", "xx.po", "sv.po", "pt.po"}) if (std::string(n) != "pt.po" || d[1] == 'r') r.dirs[base + d].push_back({n, ""});
  Path path = {base + "/p"}; static const std::vector<Language> want = {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("fr"), Language::from_spec("pt")};
  {
    DictionaryManager m; m.add_directory(base + "/p"); std::set<Language> have;
    for (int i = 0; i < len; ++i) {
      int o = x.choose(9); x.step(); Watch w; Language l; bool again = false;
      try { switch (o) {
        case 0: case 1: case 2: case 3: l = want[static_cast<size_t>(o)]; log += "get_dictionary(" + l.str() + ") "; again = have.count(l); have.insert(l); m.get_dictionary(l).translate("who"); break;
        case 4: log += "get_languages "; m.get_languages(); break; case 5: log += "add_directory(q) "; m.add_directory(base + "/q"); path_add(path, base + "/q", false); have.clear(); break;
        case 6: log += "add_directory(r/, first) "; m.add_directory(base + "/r/", true); path_add(path, base + "/r", true); have.clear(); break; case 7: log += "set_charset "; m.set_charset("UTF-8"); have.clear(); break;
        default: log += "set_language "; m.set_language(want[1]); break;
      } } catch (std::exception& e) { watch = false; x.fail(log + "throws " + e.what()); }
      watch = false; calls = real_calls; wrote = writes;
      if (wrote) x.fail(log + "opens or changes something for writing: " + calls.back());
      for (auto& c : calls) { bool file = c.compare(0, 5, "open ") == 0; std::string p = squeeze(c.substr(c.find(' ') + 1)); if (p.size() > 1 && p.back() == '/') p.pop_back(); bool dir = false; for (auto& d : path) dir |= p == squeeze(d); if (dir && o <= 4 && !again) continue; if (p.find("gconv") != std::string::npos) continue;
        if (!file || o > 3 || again) x.fail(log + "accesses " + c); std::string why = judge_open(r, path, p, l); if (!why.empty()) x.fail(log + "opens " + p + ", which " + why); }
      if (descriptors() != fds) x.fail(log + "keeps files open");
    }
  }
  if (picture(base) != before) x.fail(log + "changes the directories:\n" + before + "now\n" + picture(base)); { std::string c; for (auto& k : calls) c += k + "; "; x.note(log + "\nlast call: " + c); } x.state(log);
}
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e; { Rec r; tree(r); Logs::silence(); DictionaryManager m(std::unique_ptr<FileSystem>(new RecFS(&r))); m.add_directory("p"); for (const char* c : {"UTF-8", "ISO-8859-1"}) { m.set_charset(c); for (int i = 0; i < 4; ++i) m.get_dictionary(L(i)); } for (auto c : {"UTF-8", "KOI8-R"}) { tinygettext::Dictionary d(c); parse(header("ISO-8859-1") + "\nmsgid \"a\"\nmsgstr \"b\"\n", d); } }
  auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f) { e.push_back({n, b, f}); e.back().max_seconds = 2500; };
  std::vector<int> every; for (int i = 0; i < NOPS; ++i) every.push_back(i); const std::vector<int> few = {0, 1, 2, 4, 6, 7, 10, 12, 14, 16, 18};
  int a = t ? 5 : 4, b = t ? 7 : 6, c = t ? 6 : 4;
  put("histories", "all sequences of " + std::to_string(a) + " of " + std::to_string(NOPS) + " operations of a manager with a recording file system", [=](Ctx& x) { histories(x, a, every); });
  put("longer", "all sequences of " + std::to_string(b) + " of " + std::to_string(few.size()) + " operations", [=](Ctx& x) { histories(x, b, few); });
  put("listings", "all directories of up to " + std::to_string(t ? 4 : 3) + " of 21 names, with and without a second directory, 5 requests, opening works or fails", [t](Ctx& x) { listings(x, t); });
  put("others", "pairs of 11 uses of the library that need no file", others);
  put("real", "all sequences of " + std::to_string(c) + " of 9 operations of a manager on real directories, every call that reaches the C library recorded", [=](Ctx& x) { real_dirs(x, c); });
  return e;
}
}
mc::Property mc::property = {"C24", "model_checking", "", {"a second opening of the same file for one request is allowed only to also load the base language"}, all};
