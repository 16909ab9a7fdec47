// C25: the library works from the first constructor of the process to its last destructor, in every order of first uses.
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <pthread.h>
#include <spawn.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "exercise.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/iconv.hpp"
extern "C" char** environ;
using namespace tg;
using mc::Ctx;

namespace {
enum Phase { CTOR101, CTOR102, CTOR, MAIN, THREAD, TLS_THREAD, FORK, TLS_MAIN, ATEXIT_LATE, LOCAL_STATIC, ATEXIT_MAIN, DTOR, DTOR102, THREAD_AT_EXIT, ATEXIT_EARLY, FINI, FINI101, QUICK_LATE, QUICK_EARLY, NPHASE };
const char* const PHASE[] = {"constructor function of priority 101", "constructor of a static object of priority 102", "constructor of an ordinary static object", "main", "thread", "thread_local destructor of a thread", "after fork", "thread_local destructor of the main thread", "handler registered by atexit at the end of main", "destructor of a function's static object", "handler registered by atexit at the start of main", "destructor of an ordinary static object", "destructor of a static object of priority 102", "thread started by that destructor", "handler registered by atexit before all static objects", "destructor function", "destructor function of priority 101", "handler registered by at_quick_exit at the end of main", "handler registered by at_quick_exit at the start of the process"};
enum Op { NAMES, FORMS, PARSE, CONVERT, MANAGER, REALFS, SHARED, SHARED_CHANGE, SHARED_DELETE, DICT, SETCB, BAD, THROWS, ODD, TROUBLE, NOP };
const char* const OP[] = {"languages by name and match", "plural rules", "parse and translate", "character set conversion", "manager of its own", "manager on the real file system", "use of the shared manager", "change of the shared manager", "deletion of the shared objects", "use of the shared dictionary", "setting of call-backs", "malformed file", "refused conversions", "odd files", "files and settings in trouble"};
enum Style { RETURN, EXIT_MAIN, EXIT_THREAD, QUICK, NSTYLE };
const char* const STYLE[] = {"returning from main", "exit in main", "exit in a thread", "quick_exit"};

// everything here is constant initialised, as it is used before and after all static objects live
char plan[512]; bool active = false; int style = 0, out_fd = -1; char root[128];
DictionaryManager* shared = nullptr; Dictionary* dict = nullptr; tinygettext::IConv* conv = nullptr; std::string* seen = nullptr;
void sink_e(const std::string& s) { *seen += "E" + s; }
void sink_w(const std::string& s) { *seen += "W" + s; }
void say(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(out_fd, s.data() + o, s.size() - o); if (n <= 0) _exit(99); o += static_cast<size_t>(n); } }
std::string lang_text(const Language& l) { return l ? l.str() + "/" + l.get_name() + "/" + l.get_localized_name() : "none"; }
std::string dump(Dictionary& d) { std::map<std::string, std::string> m; d.foreach([&](const std::string& i, const Strings& v) { std::string o; for (auto& s : v) o += s + "|"; m[i] = o; }); std::string o; for (auto& e : m) o += e.first + "=" + e.second + ";"; return o; }
std::shared_ptr<Files> files() {
  auto f = std::make_shared<Files>();
  f->dirs["p"] = {{"pt.po", header("iso-8859-1", "nplurals=2; plural=(n > 1);") + "\nmsgid \"a\"\nmsgstr \"\xe9\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"um\"\nmsgstr[1] \"dois\"\n"}, {"pt_br.po", header("utf-8") + "\nmsgid \"b\"\nmsgstr \"B\"\n"}, {"xx.po", ""}, {"sr@latin.po", ""}};
  f->dirs["q"] = {{"pt.po", header("koi8-r") + "\nmsgid \"a\"\nmsgstr \"\xc1\"\n\nmsgid \"c\"\nmsgstr \"C\"\n"}}; return f;
}
std::string ask(DictionaryManager& m) {
  std::string o; Dictionary& d = m.get_dictionary(Language::from_env("pt_BR")); o = d.translate("a") + d.translate("b") + d.translate("c") + d.translate_plural("n", "ns", 1) + d.translate_plural("n", "ns", 2) + d.translate("none") + dump(d);
  std::set<std::string> s; for (auto& l : m.get_languages()) s.insert(l.str()); for (auto& l : s) o += "," + l; m.set_language(Language::from_name("Portuguese")); return o + ";" + m.get_language().str() + m.get_dictionary().translate("a");
}
DictionaryManager& the_manager() { if (!shared) { shared = new DictionaryManager(std::unique_ptr<FileSystem>(new MemFS(files()))); shared->add_directory("p"); shared->add_directory("q"); } return *shared; }
std::string captured(const std::function<void()>& fn) {
  int m = memfd_create("err", 0), old = dup(2); dup2(m, 2); fn(); std::cerr.flush(); dup2(old, 2); close(old); std::string o; char b[4096]; lseek(m, 0, SEEK_SET); ssize_t n; while ((n = read(m, b, sizeof b)) > 0) o.append(b, static_cast<size_t>(n)); close(m); return o;
}
std::string perform(int op) {
  std::string o;
  switch (op) {
    case NAMES: for (const char* n : {"German", "bokmal", "FRENCH", "de_AT.UTF-8@euro", "nothing", ""}) o += lang_text(Language::from_name(n)) + ","; o += lang_text(Language::from_env("sr_RS@latin")) + lang_text(Language::from_spec("pt", "BR")) + lang_text(Language()) + std::to_string(Language::match(Language::from_env("pt"), Language::from_env("pt_BR"))); break;
    case FORMS: for (const char* r : {"nplurals=2; plural=(n != 1);", "nplurals=1; plural=0", "nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5;", "nplurals=9; plural=n;"}) { PluralForms p = PluralForms::from_string(std::string("Plural-Forms: ") + r); o += std::to_string(p.get_nplural()) + ":"; if (p) for (int n : {0, 1, 2, 5, 11, 100}) o += std::to_string(p.get_plural(n)); o += ","; } break;
    case PARSE: { Dictionary d, f("ISO-8859-1"); std::istringstream in(header("big5", "nplurals=2; plural=(n != 1);") + "\n#, fuzzy\nmsgid \"a\"\nmsgstr \"\xa5\x5c\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"x\\ty\"\n"), i2(header("utf-8") + "\nmsgid \"z\"\nmsgstr \"\xc3\xa9\"\n"); POParser::parse("a.po", in, d); POParser::parse("b.po", i2, f); d.addFallback(&f); o = d.translate("a") + d.translate_ctxt("c", "a") + d.translate("z") + d.get_charset() + dump(d) + dump(f); break; }
    case CONVERT: { tinygettext::IConv c("koi8-r", "utf-8"); o = c.convert("\xc1\xc2"); c.set_charsets("utf-8", "iso-2022-jp"); o += c.convert("\xe6\x97\xa5"); tinygettext::IConv e; o += e.convert("\xff"); if (!conv) conv = new tinygettext::IConv("iso-8859-9", "utf-8"); o += conv->convert("\xfd"); break; }
    case MANAGER: { DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(files())), "UTF-8"); m.add_directory("q"); m.add_directory("p", true); o = ask(m); break; }
    case REALFS: { DictionaryManager m; m.add_directory(root); o = m.get_dictionary(Language::from_env("de")).translate("a") + std::to_string(m.get_languages().size()); break; }
    case SHARED: o = ask(the_manager()); break;
    case SHARED_CHANGE: { DictionaryManager& m = the_manager(); m.remove_directory("q"); o = m.get_dictionary(Language::from_env("pt")).translate("c"); m.add_directory("q"); m.set_use_fuzzy(!m.get_use_fuzzy()); m.set_use_fuzzy(!m.get_use_fuzzy()); m.set_charset("UTF-8"); o += m.get_dictionary(Language::from_env("pt")).translate("c"); break; }
    case SHARED_DELETE: delete shared; shared = nullptr; delete dict; dict = nullptr; delete conv; conv = nullptr; o = "deleted"; break;
    case DICT: { if (!dict) { dict = new Dictionary; dict->set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=(n != 1);")); } dict->add_translation("k", "K"); dict->add_translation("n", "ns", Strings{"one", "many"}); dict->add_translation("c", "k", "CK"); o = dict->translate("k") + dict->translate_plural("n", "ns", 1) + dict->translate_plural("n", "ns", 0) + dict->translate_ctxt("c", "k") + dump(*dict); break; }
    case SETCB: if (!seen) seen = new std::string; Log::set_log_error_callback(sink_e); Log::set_log_warning_callback(sink_w); Log::set_log_info_callback(nullptr); POParser::pedantic = false; o = "set"; break;
    case BAD: { if (seen) seen->clear(); Dictionary d; std::string e = captured([&] { std::istringstream in("msgid  \"p\"\nmsgstr \"\\q\"\n\nbad\n\nmsgid \"g\"\nmsgstr \"G\"\n"); POParser::parse("x.po", in, d); }); o = e + "//" + (seen ? *seen : "") + "//" + dump(d); break; }
    case THROWS: { tinygettext::IConv c; for (const char* n : {"NOSUCH", ""}) try { c.set_charsets("UTF-16", std::string(n) + "X"); o += "accepted"; } catch (std::runtime_error& e) { o += e.what(); } o += c.convert("a"); try { DictionaryManager m; m.add_directory(std::string(root) + "/none"); std::string e = captured([&] { o += std::to_string(m.get_languages().size()); }); } catch (std::exception& e) { o += "exception"; } break; }
    case ODD: { captured([&] { o = exercise::odd(); }); break; }
    case TROUBLE: { captured([&] { o = exercise::troubled() + exercise::collisions(); }); break; }
    default: break;
  }
  return o;
}
void at(int phase) {
  if (!active) return;
  for (const char* p = plan; *p;) { int a = static_cast<int>(strtol(p, const_cast<char**>(&p), 10)); ++p; int b = static_cast<int>(strtol(p, const_cast<char**>(&p), 10)); if (*p == ',') ++p; if (a != phase) continue;
    std::string r; try { r = perform(b); } catch (std::exception& e) { r = std::string("throws ") + e.what(); } say(std::to_string(a) + "." + std::to_string(b) + " " + mc::quote(r, 100000) + "\n"); }
}
void h_early() { at(ATEXIT_EARLY); } void h_main() { at(ATEXIT_MAIN); } void h_late() { at(ATEXIT_LATE); } void hq_late() { at(QUICK_LATE); } void hq_early() { at(QUICK_EARLY); }
__attribute__((constructor(101))) void first() {
  const char* e = getenv("MC25"); if (!e || strlen(e) >= sizeof plan) return;
  out_fd = atoi(getenv("MC25FD")); style = atoi(getenv("MC25STYLE")); strncpy(root, getenv("MC25ROOT"), sizeof root - 1); strcpy(plan, e); active = true;
  atexit(h_early); at_quick_exit(hq_early); at(CTOR101);
}
__attribute__((destructor(101))) void last() { at(FINI101); }
__attribute__((destructor)) void fini() { at(FINI); }
struct Object { int a, b; Object(int c, int d) : a(c), b(d) { at(a); } ~Object() { at(b); if (b == DTOR102) std::thread([] { at(THREAD_AT_EXIT); }).join(); } };
__attribute__((init_priority(102))) Object early(CTOR102, DTOR102);
Object ordinary(CTOR, DTOR);
struct Tls { int p = -1; ~Tls() { if (p >= 0) at(p); } };
thread_local Tls tls;
}
int mc::child() {
  if (!active) return -1;
  atexit(h_main); at(MAIN);
  std::thread([] { tls.p = TLS_THREAD; at(THREAD); }).join();
  bool forks = strstr(plan, (std::to_string(static_cast<int>(FORK)) + ".").c_str());
  if (forks) { pid_t p = fork(); if (p < 0) _exit(98); if (p > 0) { int s; waitpid(p, &s, 0); _exit(WIFEXITED(s) ? WEXITSTATUS(s) : 97); } at(FORK); }
  tls.p = TLS_MAIN; static Object local(NPHASE, LOCAL_STATIC); (void)local; atexit(h_late); at_quick_exit(hq_late);
  switch (style) { case EXIT_MAIN: exit(0); case EXIT_THREAD: tls.p = -1; std::thread([] { tls.p = TLS_MAIN; exit(0); }).join(); break; case QUICK: quick_exit(0); default: break; }
  return 0;
}
namespace {
std::string& base() { static std::string b; return b; }
struct Scratch {
  pid_t owner = getpid();
  Scratch() { char t[] = "/tmp/mc25.XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); base() = t; for (const char* n : {"de.po", "fr_fr.po", "it.txt"}) { FILE* f = fopen((base() + "/" + n).c_str(), "wb"); fputs("msgid \"a\"\nmsgstr \"\xc3\xa4\"\n", f); fclose(f); } }
  ~Scratch() { if (getpid() == owner && !base().empty()) { for (const char* n : {"de.po", "fr_fr.po", "it.txt"}) unlink((base() + "/" + n).c_str()); rmdir(base().c_str()); } }
};
struct Result { std::string out, err; int status; };
Result launch(int st, const std::string& p) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); int err = memfd_create("mc25", 0); fcntl(fd[0], F_SETFD, FD_CLOEXEC);
  std::vector<std::string> ev; for (char** e = environ; *e; ++e) if (strncmp(*e, "ASAN_OPTIONS=", 13) && strncmp(*e, "UBSAN_OPTIONS=", 14)) ev.push_back(*e);
  ev.push_back("MC25=" + p); ev.push_back("MC25FD=" + std::to_string(fd[1])); ev.push_back("MC25STYLE=" + std::to_string(st)); ev.push_back("MC25ROOT=" + base()); ev.push_back("ASAN_OPTIONS=detect_leaks=0:symbolize=0:check_initialization_order=0"); ev.push_back("UBSAN_OPTIONS=symbolize=0");
  std::vector<char*> ep; for (auto& s : ev) ep.push_back(&s[0]); ep.push_back(nullptr); char a0[] = "life"; char* av[] = {a0, nullptr};
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, err, 2);
  pid_t pid; int e = posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, av, ep.data()); posix_spawn_file_actions_destroy(&fa); close(fd[1]); if (e) throw std::runtime_error("spawn");
  Result r; char b[65536]; struct pollfd pf = {fd[0], POLLIN, 0}; for (;;) { if (poll(&pf, 1, 20000) <= 0) { kill(pid, SIGKILL); r.err = "does not end\n"; break; } ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) break; r.out.append(b, static_cast<size_t>(n)); } close(fd[0]);
  waitpid(pid, &r.status, 0); lseek(err, 0, SEEK_SET); ssize_t n; while ((n = read(err, b, sizeof b)) > 0) r.err.append(b, static_cast<size_t>(n)); close(err); return r;
}
std::map<int, std::string>& want() { static std::map<int, std::string> w; return w; }
std::string& bad_set() { static std::string s; return s; }
std::string line(const std::string& l) { size_t k = l.find(' '); return k == std::string::npos ? "" : l.substr(k + 1); }
void references() {
  for (int op = 0; op < NOP; ++op) { Result r = launch(RETURN, "3." + std::to_string(op)); if (r.status || r.out.empty()) throw mc::Failure{"", std::string(OP[op]) + " in main fails: " + r.out + r.err}; want()[op] = line(r.out); }
  Result r = launch(RETURN, "3.10,3.11"); std::stringstream s(r.out); std::string l; while (std::getline(s, l)) bad_set() = line(l) + "\n";
  // what these must be, independently of the run above
  struct { int op; const char* has; } E[] = {{NAMES, "de_DE/German (Germany)/Deutsch (Deutschland),"}, {NAMES, ",fr_FR/French (France)/"}, {NAMES, ",none,none,"}, {FORMS, "2:101111,1:000000,6:012345"}, {FORMS, ",0:,"}, {CONVERT, "\xd0\xb0\xd0\xb1"}, {MANAGER, "B"}, {MANAGER, "dois"}, {MANAGER, ",pt,pt_BR,sr@latin;pt_PT"}, {REALFS, "2"}, {SHARED, "dois"}, {SHARED_CHANGE, "cC"}, {DICT, "KonemanyCK"}, {BAD, "tinygettext: "}, {BAD, "g=G|"}, {THROWS, "not available"}};
  for (auto& e : E) { std::string w = mc::quote(e.has, 1000); w = w.substr(1, w.size() - 2); if (want()[e.op].find(w) == std::string::npos) throw mc::Failure{"", std::string(OP[e.op]) + " in main gives " + want()[e.op] + "without " + w}; }
  if (bad_set().find("tinygettext: ") != std::string::npos || bad_set().find("x.po") == std::string::npos) throw mc::Failure{"", "malformed file with call-backs set gives " + bad_set()};
}
void judge(Ctx& x, int st, const std::vector<std::pair<int, int>>& pl) {
  static bool ready = false; if (!ready) { try { references(); } catch (mc::Failure& f) { x.fail(f.msg); } ready = true; }
  std::string p, how = STYLE[st]; for (auto& e : pl) { if (!p.empty()) p += ","; p += std::to_string(e.first) + "." + std::to_string(e.second); how += std::string("; ") + PHASE[e.first] + ": " + OP[e.second]; }
  x.note(how); Result r = launch(st, p); x.step(pl.size());
  if (r.status) x.fail(how + "\nends with " + (WIFSIGNALED(r.status) ? "signal " + std::to_string(WTERMSIG(r.status)) : "status " + std::to_string(WEXITSTATUS(r.status))) + "\n" + r.out.substr(0, 600) + r.err.substr(0, 1500));
  std::stringstream s(r.out); std::string l; size_t n = 0; bool set = false; std::vector<bool> found(pl.size());
  while (std::getline(s, l)) { int a, b; if (sscanf(l.c_str(), "%d.%d ", &a, &b) != 2) x.fail(how + ": output " + l); bool in = false; for (size_t i = 0; i < pl.size(); ++i) if (!found[i] && pl[i].first == a && pl[i].second == b) { found[i] = true; in = true; break; } if (!in) x.fail(how + ": output " + l); ++n;
    std::string w = want()[b]; if (b == BAD && set) w = bad_set(); if (b == SETCB) set = true; if (line(l) + "\n" != w) x.fail(how + "\n" + PHASE[a] + ": " + OP[b] + " gives\n" + line(l) + "\ninstead of\n" + w); }
  if (n != pl.size()) x.fail(how + "\nonly " + std::to_string(n) + " of " + std::to_string(pl.size()) + " happened: " + r.out.substr(0, 600));
  x.state(how);
}
bool in_style(int ph, int st) { if (ph == QUICK_LATE || ph == QUICK_EARLY) return st == QUICK; if (ph <= FORK) return true; return st != QUICK; }
void single(Ctx& x) { int st = x.choose(NSTYLE), ph = x.choose(NPHASE), op = x.choose(NOP), twice = x.choose(2); if (!in_style(ph, st)) { x.trivial(); return; } std::vector<std::pair<int, int>> p(1, {ph, op}); if (twice) p.push_back({ph, op}); judge(x, st, p); }
void pairs(Ctx& x, const std::vector<int>& styles) { int st = styles[static_cast<size_t>(x.choose(static_cast<int>(styles.size())))], a = x.choose(NPHASE), oa = x.choose(NOP), b = x.choose(NPHASE), ob = x.choose(NOP); if (b < a || (a == b && ob == oa) || !in_style(a, st) || !in_style(b, st)) { x.trivial(); return; } judge(x, st, {{a, oa}, {b, ob}}); }
void everywhere(Ctx& x, const std::vector<int>& ops) { int st = x.choose(NSTYLE); std::vector<std::pair<int, int>> p; int oa = ops[static_cast<size_t>(x.choose(static_cast<int>(ops.size())))], ob = ops[static_cast<size_t>(x.choose(static_cast<int>(ops.size())))], m = x.choose(3); int k = 0; for (int ph = 0; ph < NPHASE; ++ph) if (in_style(ph, st)) { p.push_back({ph, m == 0 ? oa : m == 1 ? (k % 2 ? oa : ob) : ph < TLS_MAIN ? oa : ob}); ++k; } judge(x, st, p); }
void triples(Ctx& x) { int a = x.choose(NPHASE), b = x.choose(NPHASE), c = x.choose(NPHASE); if (b < a || c < b || !in_style(a, RETURN) || !in_style(b, RETURN) || !in_style(c, RETURN)) { x.trivial(); return; } static const int O[] = {NAMES, PARSE, SHARED, SHARED_DELETE, BAD, SETCB}; int oa = O[x.choose(6)], ob = O[x.choose(6)], oc = O[x.choose(6)]; if ((a == b && oa == ob) || (b == c && ob == oc)) { x.trivial(); return; } judge(x, RETURN, {{a, oa}, {b, ob}, {c, oc}}); }
std::vector<mc::Exploration> all(bool t) {
  static Scratch scratch; std::vector<mc::Exploration> e; auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f) { e.push_back({n, b, f}); e.back().max_seconds = t ? 3000 : 400; e.back().shard_depth = 3; };
  std::string np = std::to_string(NPHASE), no = std::to_string(NOP);
  put("single", "4 ways to end the process x " + np + " moments x " + no + " uses, once or twice, as the only uses in the process", single);
  std::vector<int> styles = {RETURN}; if (t) styles = {RETURN, EXIT_MAIN, EXIT_THREAD, QUICK};
  put("pairs", "all pairs of (one of " + np + " moments, one of " + no + " uses), " + std::to_string(styles.size()) + " ways to end the process", [styles](Ctx& x) { pairs(x, styles); });
  std::vector<int> ops; for (int i = 0; i < NOP; ++i) ops.push_back(i);
  put("everywhere", "a use at every moment of one process: all pairs of " + no + " uses, one of them everywhere, taking turns, or one before and one after the end of main; 4 ways to end", [ops](Ctx& x) { everywhere(x, ops); });
  if (t) put("triples", "all triples of (moment, one of 6 uses) in a process that returns from main", triples);
  return e;
}
}
mc::Property mc::property = {"C25", "model_checking", "", {"the library is linked into the program (not loaded and unloaded again while the process runs)"}, all};
