// C15: every placement of file system faults in operation sequences on a manager.
#include "mgr.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
struct FsError : std::runtime_error { explicit FsError(const std::string& w) : std::runtime_error(w) {} };
struct Foreign { int id; };
enum Fault { OK, DIR_STD, DIR_FOREIGN, FILE_NULL, FILE_FAILED, FILE_STD, FILE_OTHER, FILE_FOREIGN, BREAK, THROW_MASKED, THROW_UNMASKED, FOREIGN_MASKED };
const char* FNAME[] = {"ok", "listing throws", "listing throws a foreign type", "open gives null", "open gives a failed stream", "open throws", "open throws an exception that is no runtime_error", "open throws a foreign type", "stream ends", "stream throws (exceptions on)", "stream throws (exceptions off)", "stream throws a foreign type (exceptions on)"};
inline bool stream_fault(Fault f) { return f >= BREAK; }

// delivers `good` bytes one buffer at a time, then breaks
class Buf : public std::streambuf {
  std::string data; size_t good, pos = 0, chunk; Fault f; std::string what; char b[64];
public:
  Buf(const std::string& d, size_t g, Fault ft, size_t ch, const std::string& w) : data(d), good(g), chunk(ch), f(ft), what(w) {}
  int_type underflow() override {
    size_t end = f == OK ? data.size() : std::min(good, data.size());
    if (pos >= end) {
      if (f == THROW_MASKED || f == THROW_UNMASKED) throw FsError(what);
      if (f == FOREIGN_MASKED) throw Foreign{7};
      return traits_type::eof();
    }
    size_t n = std::min(std::min(chunk, sizeof b), end - pos); memcpy(b, data.data() + pos, n); pos += n; setg(b, b, b + n); return traits_type::to_int_type(b[0]);
  }
};
class Stream : public std::istream { Buf buf; public: Stream(const std::string& d, size_t g, Fault f, size_t ch, const std::string& w) : std::istream(nullptr), buf(d, g, f, ch, w) { rdbuf(&buf); if (f == THROW_MASKED || f == FOREIGN_MASKED) exceptions(std::ios::badbit); if (f == FILE_FAILED) setstate(std::ios::failbit); } };

struct Plan {                                    // decides the answer to each call, records what it did
  std::function<Fault()> dir, file; std::function<size_t(size_t)> at; size_t chunk = 64;
  std::vector<std::pair<std::string, Fault>> done;   // directory or file, fault
};
class FaultFS : public FileSystem {
public:
  std::shared_ptr<Files> f; std::shared_ptr<Plan> p;
  FaultFS(std::shared_ptr<Files> files, std::shared_ptr<Plan> plan) : f(files), p(plan) {}
  std::vector<std::string> open_directory(const std::string& d) override {
    Fault k = p->dir ? p->dir() : OK; if (k != OK) p->done.push_back({d, k});
    if (k == DIR_STD) throw FsError("fs: " + d); if (k == DIR_FOREIGN) throw Foreign{5};
    std::vector<std::string> r; auto i = f->dirs.find(d); if (i != f->dirs.end()) for (auto& e : i->second) r.push_back(e.first); return r;
  }
  std::unique_ptr<std::istream> open_file(const std::string& n) override {
    Fault k = p->file ? p->file() : OK; if (k != OK) p->done.push_back({n, k});
    if (k == FILE_STD) throw FsError("fs: " + n); if (k == FILE_OTHER) { if (n.find("AT") != std::string::npos) throw std::bad_alloc(); throw std::logic_error("fs: " + n); } if (k == FILE_FOREIGN) throw Foreign{6};
    if (k == FILE_NULL) return nullptr;
    for (auto& d : f->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == n) { size_t at = stream_fault(k) && p->at ? p->at(e.second.size()) : 0; return std::unique_ptr<std::istream>(new Stream(k == FILE_FAILED ? "" : e.second, at, k, p->chunk, "fs: " + n)); }
    return nullptr;
  }
};
std::shared_ptr<Files>& world() { static std::shared_ptr<Files> f = [] { auto r = std::make_shared<Files>(); put(*r, "p", "de.po"); put(*r, "p", "de_AT.po"); put(*r, "p", "fr.po"); put(*r, "q", "de_AT.po"); put(*r, "q", "de.po"); return r; }(); return f; }
const Language& DE() { static Language l = Language::from_spec("de"); return l; }
const Language& AT() { static Language l = Language::from_spec("de", "AT"); return l; }
const Language& FR() { static Language l = Language::from_spec("fr"); return l; }

typedef std::map<std::string, Fault> Faults;      // file or directory -> fault
// what a dictionary must contain when some files of it had faults
std::string judge_partial(const Snap& s, const Files& f, const Path& path, const Language& l, const Faults& fl) {
  auto src = sources(s); bool top = true, loose = false;
  for (auto& d : path) {
    auto it = f.dirs.find(d); if (it == f.dirs.end()) continue; auto b = best(it->second, l); if (b.empty()) continue;
    std::string name = *b.begin(), m = mark(d, name); auto k = fl.find(m); auto kd = fl.find(d);
    if (kd != fl.end()) continue;                                                     // absorbed listing fault: contributes nothing known
    if (k != fl.end()) { if (stream_fault(k->second)) loose = true; else if (src[d].count(name)) return "file " + m + " could not be opened but contributes"; continue; }
    auto e = s.plain.find("file " + m); if (e == s.plain.end() || e->second[0] != "yes") return "file " + m + " is missing although only others failed";
    e = s.plain.find("dir " + d); if (e == s.plain.end() || e->second[0] != m) return "entry of " + m + " is wrong although only others failed";
    if (top && !loose) { auto w = s.plain.find("who"); if (w == s.plain.end() || w->second[0] != m) return "shared message must come from " + m; auto c = s.ctxt.find({"c", "who"}); if (c == s.ctxt.end() || c->second[0] != "c" + m) return "shared contextual message must come from " + m; auto n = s.plain.find("n"); if (n == s.plain.end() || n->second != Strings{"1" + m, "2" + m}) return "shared plural message must come from " + m; }
    if (s.nplural != 2) return "the plural rule is lost";
    top = false;
  }
  return "";
}
struct Run {
  Ctx& x; std::shared_ptr<Plan> plan = std::make_shared<Plan>(); std::shared_ptr<Files> files; DictionaryManager dm; Path path; Language lang; std::string log; std::map<std::string, Faults> taint; std::set<std::string> maybe;   // maybe: cached or not, depending on the order of loading
  Run(Ctx& c, std::shared_ptr<Files> f) : x(c), files(f), dm(std::unique_ptr<FileSystem>(new FaultFS(f, plan))) { Logs::clear(); }
  [[noreturn]] void bad(const std::string& m) { x.fail("after " + log + "\n" + m); }
  void changed() { taint.clear(); maybe.clear(); }
  // one request; `base` is the language it may load besides
  void request(const Language& l, const std::function<Dictionary*()>& fn) {
    plan->done.clear(); size_t e0 = Logs::nerr(); Dictionary* d = nullptr; std::string threw; bool foreign = false; x.step();
    try { d = fn(); }
    catch (FsError& e) { threw = e.what(); }
    catch (Foreign&) { threw = "foreign"; foreign = true; }
    catch (std::exception& e) { report(); bad(std::string("an exception that is not the file system's reached the caller: ") + e.what()); }
    report();
    bool may = false, must = false;
    for (auto& k : plan->done) { if (k.second == DIR_STD && threw == "fs: " + k.first) may = true; if ((k.second == DIR_FOREIGN || k.second == FILE_FOREIGN || k.second == FOREIGN_MASKED) && foreign) may = true; if (k.second == FILE_NULL || k.second == FILE_FAILED || k.second == FILE_STD || k.second == FILE_OTHER || k.second == THROW_MASKED || k.second == THROW_UNMASKED) must = true; }
    if (!threw.empty() && !may) bad("the exception \"" + threw + "\" reached the caller although the fault concerns one file only");
    if (must && Logs::nerr() == e0) bad("a file that could not be opened or parsed is not reported as an error");
    Language base = l && !l.get_country().empty() ? Language::from_spec(l.get_language()) : Language();
    for (auto& k : plan->done) for (auto& c : {l, base}) { if (!c) continue; if (!threw.empty() && (c == l || k.second == DIR_STD || k.second == DIR_FOREIGN || k.second == FILE_FOREIGN || k.second == FOREIGN_MASKED)) continue;   // ended in an exception: no trace
      bool mine = k.second == DIR_STD || k.second == DIR_FOREIGN; for (auto& dn : path) { auto b = best(files->dirs[dn], c); if (!b.empty() && mark(dn, *b.begin()) == k.first) mine = true; } if (mine) { taint[c.str()][k.first] = k.second; if (!threw.empty()) maybe.insert(c.str()); } }
    if (d && l) {
      std::string j = taint.count(l.str()) ? judge_partial(snap(*d), *files, path, l, taint[l.str()]) : judge(snap(*d), *files, path, l);
      if (!j.empty() && maybe.count(l.str()) && judge(snap(*d), *files, path, l).empty()) j.clear();
      if (!j.empty()) bad(j);
      if (base && !taint.count(base.str()) && !taint.count(l.str())) { Snap b = snap(dm_base(base)); j = judge(b, *files, path, base); if (!j.empty()) bad("(base language) " + j); for (auto& e : b.plain) if (e.first.compare(0, 5, "file ") == 0 && d->translate(e.first) != "yes") bad("fallback to the base language is broken"); }
      x.state(snap(*d).hash());
    } else if (d) { if (!snap(*d).plain.empty()) bad("the dictionary for no language is not empty"); }
  }
  void report() { for (auto& k : plan->done) log += "[" + std::string(FNAME[k.second]) + ": " + k.first + "] "; }
  Dictionary& dm_base(const Language& b) { auto s1 = plan->dir; auto s2 = plan->file; plan->dir = nullptr; plan->file = nullptr; Dictionary& d = dm.get_dictionary(b); plan->dir = s1; plan->file = s2; return d; }
  void op(int o) {
    switch (o) {
      case 0: log += "get(de_AT) "; request(AT(), [&] { return &dm.get_dictionary(AT()); }); break;
      case 1: log += "get(de) "; request(DE(), [&] { return &dm.get_dictionary(DE()); }); break;
      case 2: log += "get() "; request(lang, [&] { return &dm.get_dictionary(); }); break;
      case 3: log += "set_language(de_AT) "; dm.set_language(lang = AT()); break;
      case 4: log += "get_languages() "; langs(); break;
      case 5: log += "remove(q) "; { size_t n = path.size(); path_remove(path, "q"); if (path.size() != n) changed(); } dm.remove_directory("q"); break;
      case 6: log += "get(fr) "; request(FR(), [&] { return &dm.get_dictionary(FR()); }); break;
      case 7: log += "add(q, precedence) "; { size_t n = path.size(); path_add(path, "q", true); if (path.size() != n) changed(); } dm.add_directory("q", true); break;
      case 8: log += "set_language(fr) "; dm.set_language(lang = FR()); break;
      default: log += "set_charset "; dm.set_charset("UTF-8"); changed(); break;
    }
    if (dm.get_language() != lang) bad("the current language has changed");
  }
  void langs() {
    plan->done.clear(); bool threw = false; std::set<Language> s; x.step();
    try { s = dm.get_languages(); } catch (FsError&) { threw = true; } catch (Foreign&) { threw = true; } catch (std::exception& e) { report(); bad(std::string("an exception that is not the file system's reached the caller: ") + e.what()); }
    report();
    if (threw && plan->done.empty()) bad("get_languages throws without a fault");
    if (!threw && plan->done.empty()) { std::set<Language> w; for (auto& d : path) for (auto& e : files->dirs[d]) if (is_po(e.first)) w.insert(denotes(e.first)); if (w != s) bad("the available languages are wrong"); }
  }
  // faults gone: every request that has no partly loaded dictionary behind it must be perfect, and everything after a configuration change
  void finish(int depth_of_requests) {
    plan->dir = nullptr; plan->file = nullptr; log += "(faults gone) ";
    if (depth_of_requests) { op(2); op(0); op(1); op(6); op(4); op(2); }
    op(9); op(0); op(1); op(6); op(2); op(4);
  }
};
void sequences(Ctx& x, int depth, bool loaded) {
  Run r(x, world());
  r.path = {"p", "q"}; r.dm.add_directory("p"); r.dm.add_directory("q"); if (loaded) { r.op(3); }
  r.plan->dir = [&x] { int k = x.deviate(3); return k == 0 ? OK : k == 1 ? DIR_STD : DIR_FOREIGN; };
  r.plan->file = [&x] { int k = x.deviate(10); return k == 0 ? OK : static_cast<Fault>(FILE_NULL + k - 1); };
  r.plan->at = [&x](size_t n) { static const int part[] = {0, 30, 50, 90}; return n * static_cast<size_t>(part[x.choose(4)]) / 100; };
  for (int i = 0; i < depth; ++i) r.op(x.choose(10));
  r.finish(1);
  x.note(r.log);
}
// every byte at which the stream of one file breaks
void bytes(Ctx& x) {
  static const char* file[] = {"p/de.po", "q/de_AT.po", "p/de_AT.po"}; static const Language ask[] = {DE(), AT(), AT()};
  int w = x.choose(3); Fault k = static_cast<Fault>(BREAK + x.choose(4)); int chunk = x.choose(2);
  std::string text; for (auto& d : world()->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == file[w]) text = e.second;
  size_t at = static_cast<size_t>(x.choose(static_cast<int>(text.size()) + 1));
  Run r(x, world()); r.path = {"p", "q"}; r.dm.add_directory("p"); r.dm.add_directory("q"); r.plan->chunk = chunk ? 1 : 64;
  int opens = 0; std::string want = file[w]; std::vector<std::string> order;
  // the k-th open of the request is the one of `want`
  { Run probe(x, world()); probe.dm.add_directory("p"); probe.dm.add_directory("q"); int n = 0; struct Probe : FaultFS { int* n; std::string want; int hit = -1; Probe(std::shared_ptr<Files> f, std::shared_ptr<Plan> p, int* c, std::string s) : FaultFS(f, p), n(c), want(s) {} std::unique_ptr<std::istream> open_file(const std::string& s) override { if (s == want && hit < 0) hit = *n; ++*n; return FaultFS::open_file(s); } }; Probe* pf = new Probe(world(), std::make_shared<Plan>(), &n, want); DictionaryManager dm{std::unique_ptr<FileSystem>(pf)}; dm.add_directory("p"); dm.add_directory("q"); dm.get_dictionary(ask[w]); opens = pf->hit; }
  if (opens < 0) { x.trivial(); return; }
  int n = 0; r.plan->file = [&] { return n++ == opens ? k : OK; }; r.plan->at = [&](size_t) { return at; };
  r.log = std::string(file[w]) + " breaks at byte " + std::to_string(at) + " "; 
  r.op(w == 0 ? 1 : 0); r.finish(0); x.note(r.log);
}
// whatever a listing contains
void listings(Ctx& x, int most) {
  static const Strings names = {"de.po", "de.po", "\xff_\xff.po", "de_\xe4t.po", std::string("d\0e.po", 6), "_.po", "@.po", ".po", "", "de/../de.po", std::string(100000, 'd') + ".po", "de_" + std::string(70000, 'a') + ".po", "de@.po", "de_AT@\n.po", "...po", "fr.po", "po", "x"};
  int n = x.choose(most + 1); auto f = std::make_shared<Files>(); std::string log; f->dirs["p"];
  for (int i = 0; i < n; ++i) { auto& nm = names[static_cast<size_t>(x.choose(static_cast<int>(names.size())))]; f->dirs["p"].push_back({nm, content("p", "de.po")}); log += mc::quote(nm, 30) + " "; }
  int mode = x.choose(3); auto plan = std::make_shared<Plan>(); plan->file = [mode] { return mode == 0 ? OK : mode == 1 ? FILE_NULL : FILE_STD; };
  x.note("listing " + log); Logs::clear();
  DictionaryManager dm(std::unique_ptr<FileSystem>(new FaultFS(f, plan))); dm.add_directory("p");
  bool have = false; for (auto& e : f->dirs["p"]) if (is_po(e.first)) { Language l = denotes(e.first); have |= l && Language::match(DE(), l); }
  for (int k = 0; k < 2; ++k) { Snap s = snap(dm.get_dictionary(DE())); x.step(); if (s.plain.empty() == (have && mode == 0)) x.fail("listing " + log + (have ? "has a file for de" : "has no file for de") + ":\n" + show(s)); x.state(s.hash()); if (k == 0 && mode && have && !Logs::nerr()) x.fail("listing " + log + ": no error reported"); dm.get_languages(); dm.get_dictionary(FR()); }
}
std::vector<mc::Exploration> all(bool t) {
  Logs::install();
  std::vector<mc::Exploration> e;
  int d = t ? 4 : 3;
  auto exp = [&](const char* name, int depth, int faults, bool loaded) { e.push_back({name, "all sequences of " + std::to_string(depth) + " of 10 operations with at most " + std::to_string(faults) + " faults (11 kinds, 4 places in a stream) in all file system calls, then all requests without faults, before and after a configuration change", [=](Ctx& x) { sequences(x, depth, loaded); }}); e.back().deviation_bound = faults; e.back().shard_depth = 3; e.back().max_seconds = 3000; };
  exp("one-request-three-faults", 1, t ? 4 : 3, true);
  exp("two-faults", 2, t ? 3 : 2, true);
  exp("one-fault", d, 1, true);
  exp("from-start", t ? 3 : 2, t ? 2 : 1, false);
  if (t) exp("three-operations", 3, 2, true);
  e.push_back({"every-byte", "a stream that ends or throws (4 ways) at every byte of each of 3 files, read whole or byte by byte", bytes}); e.back().shard_depth = 3;
  e.push_back({"listings", "all listings of at most " + std::string(t ? "4" : "3") + " of 18 strange names, files readable or not", [t](Ctx& x) { listings(x, t ? 4 : 3); }}); e.back().max_seconds = 2500;
  return e;
}
}
mc::Property mc::property = {"C15", "model_checking", "", {"a stream that merely ends early cannot be told from a shorter file and need not be reported", "a dictionary loaded while a file was unreadable may stay incomplete until the configuration changes"}, all};
