// C28: what is done with one object never shows in another: every answer is the one the object gives alone in a process of its own.
#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>
#include "mgr.hpp"
#include "tinygettext/iconv.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
// objects 0, 1: dictionaries; 2, 3: managers; 4, 5: converters; 6: functions without an object; 7: a dictionary that falls back to one of its own
enum { NOBJ = 8 };
int kind(int o) { static const int k[NOBJ] = {0, 0, 1, 1, 2, 2, 3, 4}; return k[o]; }
const char* const OBJ[] = {"dictionary 1", "dictionary 2", "manager 1", "manager 2", "converter 1", "converter 2", "functions", "dictionary 3"};
const std::vector<const char*>& names(int kind) {
  static const std::vector<const char*> n[] = {
    {"parse KOI8-R file", "parse file without header", "parse Big5 file", "parse malformed file", "add", "look up", "set rule", "parse without fuzzy entries", "anew", "parse file with header without charset"},
    {"add p", "add q first", "remove p", "set language", "current dictionary", "dictionary for fr", "languages", "set charset", "no fuzzy", "anew", "files unreadable from now on", "add to current dictionary"},
    {"configure", "convert", "convert stateful", "configure in vain", "anew", "configure alike"},
    {"languages by name", "plural rules", "parse into a passing dictionary", "match", "pass a log message"},
    {"add to the fallback", "add", "look up", "parse", "anew"}};
  return n[kind];
}
int nops(int o) { return static_cast<int>(names(kind(o)).size()); }
const std::string K3 = "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", K2 = "nplurals=2; plural=(n > 1);", K1 = "nplurals=1; plural=0;";
const std::string KOI = header("KOI8-R", K3) + "\nmsgid \"a\"\nmsgstr \"\xc1\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"1\xc2\"\nmsgstr[1] \"2\"\nmsgstr[2] \"3\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"c\xc3\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n";
const std::string BARE = "msgid \"a\"\nmsgstr \"\xc3\xa9\"\n\nmsgid \"b\"\nmsgstr \"bare \xc3\xbc\"\n";
const std::string NOCS = "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"" + ("Plural-Forms: " + K2) + "\\n\"\n\nmsgid \"a\"\nmsgstr \"\xc3\xa9 none\"\n\nmsgid \"g\"\nmsgstr \"\xc5\x81 none\"\n";
const std::string BIG = header("BIG5") + "\nmsgid \"a\"\nmsgstr \"\xa4\x40\xb3\x5c\"\n\nmsgid \"g\"\nmsgstr \"big\"\n";
const std::string BAD = "msgid \"a\"\nmsgstr bad\n\n" + header("ISO-8859-1", K2) + "\nmsgid  \"b\"\nmsgstr \"B\\q\xe9\"\n\nmsgid \"unfinished";
const std::string FUZZ = header("UTF-8", K2) + "\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F2\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n";
struct Disk : Files { bool unreadable = false; };
struct DiskFS : MemFS { std::shared_ptr<Disk> d; explicit DiskFS(std::shared_ptr<Disk> x) : MemFS(x), d(x) {} std::unique_ptr<std::istream> open_file(const std::string& n) override { if (d->unreadable) return std::unique_ptr<std::istream>(); return MemFS::open_file(n); } };
std::shared_ptr<Disk> files(int o) {
  auto f = std::make_shared<Disk>(); std::string m = o == 2 ? "one" : "two";
  f->dirs["p"] = {{"de.po", (o == 2 ? header("ISO-8859-1", K2) : header("UTF-8", K1)) + "\nmsgid \"a\"\nmsgstr \"p de " + m + (o == 2 ? " \xe9" : " \xc3\xbc") + "\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"" + m + " 1\"\nmsgstr[1] \"" + m + " 2\"\n"}, {o == 2 ? "de_AT.po" : "de_CH.po", header("UTF-8") + "\nmsgid \"b\"\nmsgstr \"regional " + m + "\"\n"}, {"fr.po", o == 2 ? KOI : BAD}};
  f->dirs["q"] = {{"de.po", header("UTF-8") + "\n#, fuzzy\nmsgid \"f\"\nmsgstr \"fuzzy " + m + "\"\n\nmsgid \"a\"\nmsgstr \"q de " + m + "\"\n"}, {o == 2 ? "it.po" : "fr.po", header("KOI8-R", K3) + "\nmsgid \"a\"\nmsgstr \"q \xc4\"\n"}, {"xx.po", ""}};
  return f;
}
std::string all_of(Dictionary& d) { // answers and contents
  std::string o; for (const char* id : {"a", "b", "e", "f", "g", "n", "p", "none"}) { o += d.translate(id) + "|" + d.translate_ctxt("c", id) + "|"; for (int k : {0, 1, 2, 5, 11, 21}) o += d.translate_plural(id, "s", k) + "," + d.translate_ctxt_plural("c", id, "s", k) + ";"; o += "\n"; }
  std::map<std::string, std::string> m; d.foreach([&](const std::string& i, const Strings& v) { m[i] += show(v); }); d.foreach_ctxt([&](const std::string& c, const std::string& i, const Strings& v) { m[c + "\4" + i] += show(v); }); for (auto& e : m) o += e.first + "=" + e.second + " "; return o + d.get_charset() + std::to_string(d.get_plural_forms().get_nplural());
}
struct World {
  std::unique_ptr<Dictionary> d[2], third, under; std::unique_ptr<DictionaryManager> m[2]; std::shared_ptr<Disk> fs[2]; std::unique_ptr<tinygettext::IConv> c[2];
  void make(int o) {
    if (o < 2) { if (!d[o]) d[o].reset(new Dictionary(o ? "ISO-8859-1" : "UTF-8")); }
    else if (o < 4) { if (!m[o - 2]) m[o - 2].reset(new DictionaryManager(std::unique_ptr<FileSystem>(new DiskFS(fs[o - 2] = files(o))), o == 2 ? "UTF-8" : "ISO-8859-5")); }
    else if (o < 6) { if (!c[o - 4]) c[o - 4].reset(new tinygettext::IConv); }
    else if (o == 7) { if (!third) { third.reset(new Dictionary("KOI8-R")); under.reset(new Dictionary("KOI8-R")); third->addFallback(under.get()); } }
  }
  std::string run(int o, int op) {
    make(o); std::string r;
    switch (kind(o)) {
      case 0: { Dictionary& x = *d[o]; switch (op) {
        case 0: parse(KOI, x, "koi" + std::to_string(o)); break; case 1: parse(BARE, x, "bare" + std::to_string(o)); break; case 2: parse(BIG, x, "big"); parse(odd_files()[1], x, "big5"); break; case 3: parse(BAD, x, "bad" + std::to_string(o)); for (int k = 0; k < 3; k += 2) parse(odd_files()[static_cast<size_t>(k)], x, "odd" + std::to_string(o)); break;
        case 4: x.add_translation("a", o ? "second" : "first"); x.add_translation("c", "b", o ? "second c" : "first c"); x.add_translation("n", "ns", o ? Strings{"I", "II"} : Strings{"i", "ii", "iii"}); break; case 5: r = all_of(x); break; case 6: x.set_plural_forms(forms(o ? K1 : K2)); break;
        case 7: { std::istringstream in(FUZZ); POParser::parse("fuzz", in, x, false); break; } case 8: d[o].reset(); break; default: parse(NOCS, x, "nocs"); } break; }
      case 1: { DictionaryManager& x = *m[o - 2]; switch (op) { case 0: x.add_directory("p"); break; case 1: x.add_directory("q", true); break; case 2: x.remove_directory("p"); break; case 3: x.set_language(Language::from_env(o == 2 ? "de_AT" : "de_CH")); break; case 4: r = x.get_language().str() + all_of(x.get_dictionary()); break; case 5: r = all_of(x.get_dictionary(Language::from_env("fr"))); break; case 6: { std::set<std::string> s; for (auto& l : x.get_languages()) s.insert(l.str()); for (auto& l : s) r += l + " "; break; } case 7: x.set_charset(o == 2 ? "KOI8-R" : "ISO-8859-1"); break; case 8: x.set_use_fuzzy(false); break; case 9: m[o - 2].reset(); break; case 10: { fs[o - 2]->unreadable = true; break; } default: x.get_dictionary().add_translation("g", o == 2 ? "added one" : "added two"); x.get_dictionary().add_translation("c", "a", "added"); } break; }
      case 2: { tinygettext::IConv& x = *c[o - 4]; switch (op) { case 0: if (o == 4) x.set_charsets("ISO-2022-JP", "UTF-8"); else x.set_charsets("UTF-8", "ISO-8859-1"); break; case 1: r = x.convert(o == 4 ? "plain" : "\xc3\xa9\xc3"); break; case 2: r = x.convert(o == 4 ? "\x1b$B%\"" : "\xc3\xbcx"); break; case 3: try { x.set_charsets("nowhere", o == 4 ? "UTF-8" : "ISO-8859-1"); r = "accepted"; } catch (std::runtime_error& e) { r = e.what(); } break; case 4: c[o - 4].reset(); break; default: x.set_charsets("KOI8-R", "UTF-32"); } break; }
      case 3: switch (op) { case 0: for (const char* n : {"german", "Fran\xc3\xa7" "ais", "no_NO", "pt_BR.x@y", "xx"}) { Language l = Language::from_name(n); r += l.str() + "/" + l.get_name() + "/" + l.get_localized_name() + " "; } break; case 1: for (auto& h : {K1, K2, K3, std::string("nplurals=3; plural=n;")}) { PluralForms p = forms(h); r += std::to_string(p.get_nplural()) + ":"; for (int n : {0, 1, 2, 5, 21}) r += std::to_string(p.get_plural(n)); } break; case 2: { Dictionary x("UTF-8"); parse(BIG, x, "passing"); parse(BAD, x, "passing2"); parse(odd_files()[0], x, "odd"); parse(odd_files()[1], x, "odd"); r = all_of(x); break; } case 3: for (const char* n : {"de", "de_AT", "fr"}) for (const char* k : {"de_AT", "sr@latin"}) r += std::to_string(Language::match(Language::from_env(n), Language::from_env(k))); break; default: { Log l(&Logs::warning); l.get() << "passing " << 7; } } break;
      default: { Dictionary& x = *third; switch (op) { case 0: under->add_translation("b", "under"); under->add_translation("c", "a", "under c"); break; case 1: x.add_translation("a", "third"); break; case 2: r = all_of(x); break; case 3: parse(KOI, x, "third"); break; default: third.reset(); under.reset(); } }
    }
    return r;
  }
  std::string act(int o, int op) { Logs::all().clear(); std::string r; try { r = run(o, op); } catch (std::exception& e) { r = std::string("throws ") + e.what(); } std::vector<std::string> l; for (auto& e : Logs::all()) l.push_back(std::to_string(e.first) + e.second); std::sort(l.begin(), l.end()); for (auto& s : l) r += "\n  log " + s; Logs::all().clear(); return r; }
};
// what an object may have behind it at the start
std::vector<int> before(int o, int start) { if (start == 0) return {}; static const std::vector<int> w[] = {{0, 4, 5}, {0, 1, 3, 4, 5, 6}, {0, 2}, {0, 1, 2, 3}, {0, 1, 2}}, v[] = {{3, 1, 7, 5}, {0, 10, 5, 8, 5}, {3, 0, 1}, {2}, {3, 2}}; return (start == 1 ? w : v)[kind(o)]; }
// ---- the answers of each object alone, in a process of its own ----
typedef std::vector<int> Seq;
// only sums of the answers are kept: the executions fork this process, which has to stay small
typedef std::vector<uint64_t> Sums;
uint64_t sum(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h ^ (h >> 29); }
std::map<std::pair<int, Seq>, Sums>& alone_table() { static std::map<std::pair<int, Seq>, Sums> t; return t; }
void put_str(std::string& o, const std::string& s) { o += std::to_string(s.size()) + ":" + s; }
std::string one_alone(int o, const Seq& s, bool whole = false) { // in a child
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); pid_t p = fork();
  if (p == 0) { close(fd[0]); std::string out; { World w; for (int op : s) { std::string a = w.act(o, op); put_str(out, whole ? a : std::to_string(sum(a))); } } size_t k = 0; while (k < out.size()) { ssize_t n = write(fd[1], out.data() + k, out.size() - k); if (n <= 0) _exit(9); k += static_cast<size_t>(n); } _exit(0); }
  close(fd[1]); std::string r; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n)); close(fd[0]); int st = 0; waitpid(p, &st, 0); if (st) return ""; return r;
}
void learn(const std::vector<std::pair<int, Seq>>& todo) {
  const size_t N = 8; std::vector<FILE*> f; std::vector<pid_t> pid;
  for (size_t k = 0; k < N; ++k) { FILE* t = tmpfile(); if (!t) throw std::runtime_error("tmpfile"); f.push_back(t); pid_t p = fork(); if (p == 0) { for (size_t i = k; i < todo.size(); i += N) { std::string r = one_alone(todo[i].first, todo[i].second), o; put_str(o, r); fwrite(o.data(), 1, o.size(), t); } fflush(t); _exit(0); } pid.push_back(p); }
  auto get = [](const std::string& s, size_t& at) { size_t c = s.find(':', at); size_t n = std::stoul(s.substr(at, c - at)); std::string r = s.substr(c + 1, n); at = c + 1 + n; return r; };
  for (size_t k = 0; k < N; ++k) { int st; waitpid(pid[k], &st, 0); std::string s; rewind(f[k]); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f[k])) > 0) s.append(b, n); fclose(f[k]); size_t at = 0; for (size_t i = k; i < todo.size() && at < s.size(); i += N) { std::string r = get(s, at); Sums v; size_t x = 0; while (x < r.size()) v.push_back(std::stoull(get(r, x))); alone_table()[todo[i]] = v; } }
}
std::string alone_text(int o, const Seq& s) { Strings v; std::string r = one_alone(o, s, true); size_t at = 0; while (at < r.size()) { size_t c = r.find(':', at), n = std::stoul(r.substr(at, c - at)); v.push_back(r.substr(c + 1, n)); at = c + 1 + n; } return v.empty() ? "(nothing)" : v.back(); }
struct Step { int o, op; };
std::string text(const std::vector<Step>& s) { std::string t; for (auto& e : s) t += std::string(OBJ[e.o]) + ": " + names(kind(e.o))[static_cast<size_t>(e.op)] + "; "; return t; }
// runs the steps, after what each object has behind it, and compares with the answers alone; `depth`: length of the sequences learnt
void judge(Ctx& x, const std::vector<Step>& steps, int start, size_t depth) {
  x.note(text(steps)); World w; Seq done[NOBJ]; bool seen[NOBJ] = {}; std::string h = start ? "after start " + std::to_string(start) + ": " : "";
  if (start) for (auto& s : steps) seen[s.o] = true;
  auto expect = [&](int o) -> const Sums* { Seq full = done[o]; size_t n = before(o, start).size() + depth; while (full.size() < n) full.push_back(0); auto i = alone_table().find({o, full}); return i == alone_table().end() || i->second.size() < done[o].size() ? nullptr : &i->second; };
  auto go = [&](int o, int op) { std::string g = w.act(o, op); x.step(); done[o].push_back(op); const Sums* e = expect(o); h += std::string(OBJ[o]) + ": " + names(kind(o))[static_cast<size_t>(op)] + "; "; if (e && (*e)[done[o].size() - 1] != sum(g)) x.fail(h + "\ngives\n" + g + "\nalone it gives\n" + alone_text(o, done[o])); x.state(g); };
  if (start) { size_t most = 0; for (int o = 0; o < NOBJ; ++o) if (seen[o]) most = std::max(most, before(o, start).size()); for (size_t i = 0; i < most; ++i) for (int o = 0; o < NOBJ; ++o) if (seen[o] && i < before(o, start).size()) go(o, before(o, start)[i]); }
  for (auto& s : steps) go(s.o, s.op);
}
int total() { int n = 0; for (int o = 0; o < NOBJ; ++o) n += nops(o); return n; }
Step step(int k) { int o = 0; while (k >= nops(o)) k -= nops(o++); return {o, k}; }
size_t learnt = 3;
void sequences(Ctx& x, int len, int starts) { int st = x.choose(starts); std::vector<Step> s; for (int i = 0; i < len; ++i) s.push_back(step(x.choose(total()))); bool one = true; for (auto& e : s) one &= e.o == s[0].o; if (one) { x.trivial(); return; } judge(x, s, st, learnt); }
// ends with a look at the last object
void looked_at(Ctx& x, int len) { static const int look[] = {5, 4, 1, 0, 2}, other[] = {5, 5, 2, 2, 2}; int st = x.choose(3); std::vector<Step> s; for (int i = 0; i < len; ++i) s.push_back(step(x.choose(total()))); int o = x.choose(NOBJ), w = x.choose(2); if (s.back().o == o) { x.trivial(); return; } size_t mine = 0; for (auto& e : s) mine += e.o == o; if (mine + 1 > learnt) { x.trivial(); return; } s.push_back({o, (w ? other : look)[kind(o)]}); judge(x, s, st, learnt); }
const Seq& script(int o, int v) { static const Seq a[] = {{0, 4, 5, 8, 5}, {0, 3, 4, 7, 4}, {0, 1, 2, 3, 1}, {0, 1, 2, 3, 4}, {0, 3, 2, 4, 2}}, b[] = {{2, 3, 6, 1, 5}, {0, 10, 5, 8, 5}, {2, 0, 2, 5, 1}, {2, 2, 1, 0, 3}, {1, 2, 3, 0, 2}}, c[] = {{7, 0, 5, 9, 5}, {0, 1, 5, 11, 5}, {3, 0, 1, 5, 1}, {4, 2, 0, 2, 1}, {3, 2, 4, 1, 2}}; return (v == 0 ? a : v == 1 ? b : c)[kind(o)]; }
// all interleavings of the scripts of several objects
void woven(Ctx& x, int n, size_t len) {
  std::vector<int> o; int first = 0; for (int i = 0; i < n; ++i) { int k = first + x.choose(NOBJ - first - (n - 1 - i)); o.push_back(k); first = k + 1; } std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(x.choose(3)); std::vector<size_t> at(static_cast<size_t>(n), 0); std::vector<Step> s; std::vector<int> live;
  for (;;) { live.clear(); for (int i = 0; i < n; ++i) if (at[static_cast<size_t>(i)] < len) live.push_back(i); if (live.empty()) break; int i = live[static_cast<size_t>(x.choose(static_cast<int>(live.size())))]; s.push_back({o[static_cast<size_t>(i)], script(o[static_cast<size_t>(i)], v[static_cast<size_t>(i)])[at[static_cast<size_t>(i)]++]}); }
  x.note(text(s)); World w; std::string h; std::vector<size_t> pos(NOBJ, 0); for (auto& e : s) { std::string g = w.act(e.o, e.op); x.step(); size_t i = 0; while (o[i] != e.o) ++i; auto it = alone_table().find({e.o, script(e.o, v[i])}); size_t p = pos[static_cast<size_t>(e.o)]++; h += text({e}); if (it != alone_table().end() && it->second.size() > p && it->second[p] != sum(g)) x.fail(h + "\ngives\n" + g + "\nalone it gives\n" + alone_text(e.o, Seq(it->first.second.begin(), it->first.second.begin() + static_cast<long>(p) + 1))); x.state(g); }
}
std::vector<mc::Exploration> all(bool t) {
  Logs::install(true); learnt = t ? 4 : 3; std::vector<std::pair<int, Seq>> todo;
  for (int o = 0; o < NOBJ; ++o) { for (int st = 0; st < 3; ++st) { size_t l = st && t ? 3 : learnt; (void)l; Seq s = before(o, st); size_t b = s.size(); s.resize(b + learnt, 0); for (;;) { todo.push_back({o, s}); size_t i = s.size(); while (i > b && ++s[i - 1] == nops(o)) s[--i] = 0; if (i == b) break; } } for (int v = 0; v < 3; ++v) todo.push_back({o, script(o, v)}); }
  learn(todo);
  std::vector<mc::Exploration> e; auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f) { e.push_back({n, b, f}); e.back().max_seconds = t ? 3000 : 500; e.back().shard_depth = 3; e.back().fork_each = true; };
  std::string nt = std::to_string(total());
  put("pairs", "all pairs of " + nt + " operations of 8 objects, in 3 starting states, then a look at any object in 2 ways", [](Ctx& x) { looked_at(x, 2); });
  put("triples", "all triples of " + nt + " operations of 8 fresh objects", [](Ctx& x) { sequences(x, 3, 1); });
  if (t) put("triples-behind", "all triples of " + nt + " operations in 3 starting states", [](Ctx& x) { sequences(x, 3, 3); });
  if (t) put("looked-at", "all triples of operations, then a look at any object", [](Ctx& x) { looked_at(x, 3); });
  put("woven-two", "all interleavings of 5 operations each of any 2 objects, 3 scripts of each", [](Ctx& x) { woven(x, 2, 5); });
  if (t) put("woven-three", "all interleavings of 3 operations each of any 3 objects, 3 scripts of each", [](Ctx& x) { woven(x, 3, 3); });
  return e;
}
}
mc::Property mc::property = {"C28", "model_checking", "", {"the settings that are global by name (POParser::pedantic, the callbacks of Log) are left alone"}, all};
