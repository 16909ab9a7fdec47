// C16: independent objects in several threads, and lookups on a shared dictionary, under a controlled scheduler.
#include <sys/wait.h>
#include <unistd.h>
#include "sched/rt.hpp"
#include "tg.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"
#include "exercise.hpp"
using namespace tg;
using mc::Ctx;

namespace {
thread_local unsigned tl_logs = 0;
void count_log(const std::string&) { ++tl_logs; }
const char* const R2 = "nplurals=2; plural=(n != 1);"; const char* const RU = "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);";
std::string show_lang(const Language& l) { return l ? l.str() + "," + l.get_name() + "," + l.get_language() + "," + l.get_country() : "none"; }
std::string small(const std::string& cs, const std::string& rule, const std::string& g) {
  return header(cs, rule) + "\n#, c-format\nmsgid \"a\"\nmsgstr \"A" + g + "\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"C\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"N0\"\nmsgstr[1] \"N1\"\nmsgstr[2] \"N2\"\n\nmsgid \"a\"\nmsgstr \"again\"\n\nmsgid broken\n";
}
std::string dict_text(Dictionary& d) { Snap s = snap(d); return show(s) + std::to_string(s.hash()) + " logs " + std::to_string(tl_logs); }
std::string parsed(const std::string& to, const std::string& text) { Dictionary d(to); parse(text, d); return dict_text(d); }
std::shared_ptr<Files> memory(const std::string& cs) { auto f = std::make_shared<Files>(); f->dirs["p"] = {{"de.po", small(cs, R2, "")}, {"de_AT.po", small("UTF-8", RU, "")}, {"zz.po", ""}}; return f; }
std::string managed(const char* cs) {
  DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(memory("UTF-8"))), cs); m.add_directory("p"); std::string o;
  for (auto& l : m.get_languages()) o += l.str() + "|";
  m.set_language(Language::from_env("de_AT.UTF-8")); o += m.get_dictionary().translate("a") + m.get_dictionary().translate_plural("n", "ns", 5) + m.get_dictionary(Language::from_name("german")).translate_ctxt("c", "a");
  m.remove_directory("p"); o += m.get_dictionary().translate("a"); return o + " logs " + std::to_string(tl_logs);
}
// one shared dictionary with a fallback, and one manager's dictionary, built before the threads start
struct Shared { Dictionary base{"UTF-8"}, d{"UTF-8"}; Language l1, l2; PluralForms pf; };
Shared* shared_ = nullptr;
std::string lookups(const Dictionary& d, int k) {
  std::string o;
  if (k == 0) o = d.translate("a") + d.translate("missing") + d.translate("base only") + d.translate_plural("n", "ns", 1) + d.translate_plural("n", "ns", 7) + d.translate_plural("x", "xs", 2);
  else o = d.translate_ctxt("c", "a") + d.translate_ctxt("none", "a") + d.translate_ctxt_plural("c", "n", "ns", 3) + d.translate_ctxt_plural("c", "zz", "zzs", 1) + d.translate("a") + d.get_charset() + std::to_string(d.get_plural_forms().get_nplural());
  return o + " logs " + std::to_string(tl_logs);
}
std::string listing(Dictionary& d) { std::string o; d.foreach([&](const std::string& id, const Strings& v) { o += id + show(v); }); d.foreach_ctxt([&](const std::string& c, const std::string& id, const Strings& v) { o += c + id + show(v); }); return o; }
struct Op { const char* name; std::function<std::string()> fn; bool shared; };
const std::vector<Op>& ops() {
  static const std::vector<Op> v = {
    {"from_env(de_AT.UTF-8@euro)", [] { return show_lang(Language::from_env("de_AT.UTF-8@euro")); }, false},
    {"from_name(Deutsch, german)", [] { return show_lang(Language::from_name("german")) + show_lang(Language::from_name("FRENCH")) + show_lang(Language::from_name("nothing")); }, false},
    {"from_spec(sr,RS,latin)", [] { return show_lang(Language::from_spec("sr", "RS", "latin")) + show_lang(Language::from_spec("pt", "BR")) + show_lang(Language::from_spec("qqq")); }, false},
    {"from_env(xx), match", [] { return show_lang(Language::from_env("xx_YY")) + std::to_string(Language::match(Language::from_env("de"), Language::from_env("de_CH"))); }, false},
    {"plural rule (ru)", [] { PluralForms p = forms(RU); std::string o = std::to_string(p.get_nplural()); for (int n = 0; n < 25; ++n) o += std::to_string(p.get_plural(n)); return o; }, false},
    {"plural rule (fr), unknown rule", [] { PluralForms p = forms("nplurals=2; plural=(n > 1);"), u = forms("nplurals=8; plural=n;"); return std::to_string(p.get_nplural()) + std::to_string(p.get_plural(1)) + (u ? "known" : "unknown"); }, false},
    {"parse UTF-8", [] { return parsed("UTF-8", small("UTF-8", RU, "\xc3\xa9")); }, false},
    {"parse ISO-8859-1 to UTF-8", [] { return parsed("UTF-8", small("ISO-8859-1", R2, "\xe9")); }, false},
    {"parse UTF-8 to ISO-8859-1", [] { return parsed("ISO-8859-1", small("UTF-8", R2, "\xc3\xa9")); }, false},
    {"own manager", [] { return managed("UTF-8"); }, false},
    {"own converter", [] { IConv c("UTF-8", "UTF-16LE"); std::string o = mc::quote(c.convert("\xc3\xa9q")); c.set_charsets("ISO-8859-1", "UTF-8"); return o + mc::quote(c.convert("\xe9")); }, false},
    {"own dictionary", [] { Dictionary d; d.set_plural_forms(forms(R2)); d.add_translation("a", "A"); d.add_translation("c", "a", "C"); d.add_translation("n", "ns", Strings{"1", "2"}); return lookups(d, 0) + lookups(d, 1) + dict_text(d); }, false},
    {"own file system", [] { UnixFileSystem fs; std::string o; auto v = fs.open_directory("/dev/fd/.."); auto in = fs.open_file("/dev/null"); std::string s; std::getline(*in, s); o += *fs.open_file("/nowhere/at all/in this file system.po") ? "open" : "not open"; try { fs.open_directory("/nowhere"); } catch (std::exception& e) { o = "error"; } return o + s + (v.empty() ? "empty" : "some"); }, false},
    {"parse odd files", [] { std::string o = exercise::odd(); return o + " logs " + std::to_string(tl_logs); }, false},
    {"own manager in trouble", [] { std::string o = exercise::troubled(); return o + " logs " + std::to_string(tl_logs); }, false},
    {"own dictionary with collisions", [] { std::string o = exercise::collisions(); return o + " logs " + std::to_string(tl_logs); }, false},
    {"lookups on the shared dictionary", [] { return lookups(shared_->d, 0); }, true},
    {"contextual lookups on the shared dictionary", [] { return lookups(shared_->d, 1); }, true},
    {"listing of the shared dictionary", [] { return listing(shared_->d); }, true},
    {"shared language and rule values", [] { std::string o = show_lang(shared_->l1) + std::to_string(shared_->l1 == shared_->l2) + std::to_string(Language::match(shared_->l1, shared_->l2)) + std::to_string(shared_->pf.get_plural(3)); Language c = shared_->l2; return o + c.str() + std::to_string(std::hash<std::string>()(c.str()) % 7); }, true},
  };
  return v;
}
const char* const SPECS[] = {"de", "AT"};
void prepare() { // built by the main thread before the others start; languages resolved there only when used by value
  if (shared_) return; shared_ = new Shared;
  for (int i = 0; i < 2; ++i) { Dictionary& d = i ? shared_->d : shared_->base; d.add_translation(i ? "a" : "base only", "A"); d.add_translation("n", "ns", Strings{"one", "many"}); d.add_translation("c", "a", "ctx"); d.add_translation("c", "n", "ns", Strings{"c1", "c2"}); }
  shared_->d.addFallback(&shared_->base);
}
void prepare_rules() { prepare(); PluralForms p = forms(R2); shared_->base.set_plural_forms(p); shared_->d.set_plural_forms(p); shared_->pf = p; shared_->l1 = Language::from_spec(SPECS[0], SPECS[1]); shared_->l2 = Language::from_spec(SPECS[0]); }
bool needs_rules(int k) { return ops()[static_cast<size_t>(k)].shared; }
// what an operation returns alone in a fresh process
std::string alone(int k, bool rules) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); pid_t p = fork();
  if (p == 0) { close(fd[0]); rules ? prepare_rules() : prepare(); std::string r = ops()[static_cast<size_t>(k)].fn(); size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += static_cast<size_t>(n); } _exit(0); }
  close(fd[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n)); close(fd[0]); int s; waitpid(p, &s, 0);
  if (s) throw mc::Failure{"crash", std::string(ops()[static_cast<size_t>(k)].name) + " alone ends with status " + std::to_string(s)}; return r;
}
std::map<std::pair<int, bool>, std::string>& expected() { static std::map<std::pair<int, bool>, std::string> m; return m; }
const std::string& want(int k, bool r) { auto& m = expected(); auto i = m.find({k, r}); if (i == m.end()) i = m.insert({{k, r}, alone(k, r)}).first; return i->second; }

// threads[i] is a sequence of operations
void program(Ctx& x, const std::vector<std::vector<int>>& threads, bool at_functions) {
  bool rules = false; for (auto& t : threads) for (int k : t) rules |= needs_rules(k);
  std::vector<std::vector<std::string>> exp; for (auto& t : threads) { exp.emplace_back(); for (int k : t) exp.back().push_back(want(k, rules)); }
  if (rules) prepare_rules(); else prepare();
  std::string n; for (size_t i = 0; i < threads.size(); ++i) { n += "thread " + std::to_string(i) + ":"; for (int k : threads[i]) n += std::string(" ") + ops()[static_cast<size_t>(k)].name + ";"; n += "\n"; } x.note(n);
  std::vector<std::vector<std::string>> got(threads.size()); std::vector<std::function<void()>> fn;
  for (size_t i = 0; i < threads.size(); ++i) { got[i].resize(threads[i].size()); fn.push_back([&, i] { for (size_t k = 0; k < threads[i].size(); ++k) { tl_logs = 0; got[i][k] = ops()[static_cast<size_t>(threads[i][k])].fn(); } }); }
  sched::Options o; o.at_functions = at_functions; sched::run(x, fn, o);
  for (size_t i = 0; i < threads.size(); ++i) for (size_t k = 0; k < threads[i].size(); ++k) if (got[i][k] != exp[i][k]) x.fail(n + ops()[static_cast<size_t>(threads[i][k])].name + " in thread " + std::to_string(i) + " gives\n" + got[i][k] + "\nalone it gives\n" + exp[i][k]);
  auto s = sched::stats(); x.note("shared-memory accesses checked " + std::to_string(s.accesses) + ", synchronisation operations " + std::to_string(s.syncs) + ", functions entered " + std::to_string(s.functions));
  std::string h = n; for (auto& p : x.pts) h += static_cast<char>(p.c); x.state(h);
}
int pick(Ctx& x) { return x.choose(static_cast<int>(ops().size())); }
void pairs(Ctx& x, bool fns) { int a = pick(x), b = x.choose(static_cast<int>(ops().size()) - a) + a; program(x, {{a}, {b}}, fns); }
void twos(Ctx& x) { int a = pick(x), b = pick(x), c = pick(x), d = pick(x); program(x, {{a, b}, {c, d}}, false); }
void triples(Ctx& x) { int a = pick(x), b = x.choose(static_cast<int>(ops().size()) - a) + a, c = x.choose(static_cast<int>(ops().size()) - b) + b; program(x, {{a}, {b}, {c}}, false); }

std::vector<mc::Exploration> all(bool t) {
  Log::set_log_info_callback(count_log); Log::set_log_warning_callback(count_log); Log::set_log_error_callback(count_log);
  std::vector<mc::Exploration> e; std::string n = std::to_string(ops().size());
  auto put = [&](const char* name, const std::string& b, std::function<void(Ctx&)> f, int bound) { e.push_back({name, b, f}); e.back().deviation_bound = bound; e.back().fork_each = true; e.back().max_seconds = 3000; e.back().shard_depth = 2; };
  put("pairs", "two threads, all pairs of " + n + " operations from the first use in the process, switches at every synchronisation operation, at most " + std::string(t ? "3" : "2") + " preemptions", [](Ctx& x) { pairs(x, false); }, t ? 3 : 2);
  put("triples", "three threads, all triples, at most " + std::string(t ? "2" : "0") + " preemptions at synchronisation operations", triples, t ? 2 : 0);
  put("pairs-functions", "two threads, all pairs, at most one preemption, at any entry of a function outside the C++ library or synchronisation operation", [](Ctx& x) { pairs(x, true); }, 1);
  if (t) put("twos", "two threads of two operations each, all quadruples, at most 1 preemption", twos, 1);
  return e;
}
}
mc::Property mc::property = {"C16", "model_checking", "", {"sequentially consistent memory: weaker orderings are covered by reporting every data race", "code inside the C and C++ libraries is not interleaved; their documented thread safety is relied on", "threads switch at synchronisation operations (all) and function entries (one preemption); between them a race is reported by happens-before, not by outcome"}, all};
