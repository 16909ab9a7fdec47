// C22: log callbacks, file systems and streams that use the library themselves while it calls them.
#include <set>
#include "mgr.hpp"
#include "tinygettext/iconv.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
const std::string R2 = "nplurals=2; plural=(n != 1);";
// ---- the hook: every place at which the library calls out ----
std::function<void(const char*)> hook; int level = 0, deepest = 0;
void call_out(const char* where) { if (!hook) return; ++level; if (level > deepest) deepest = level; struct Down { ~Down() { --level; } } d; hook(where); }
std::vector<std::string>* sink;     // messages of the call at work, without those of calls nested in it
void note_fail(const std::string& m);
void message(const char* sev, const char* where, const std::string& s) { std::string given = s; if (sink) sink->push_back(sev + s); call_out(where); if (s != given) note_fail("the message " + mc::quote(given) + " has become " + mc::quote(s) + " while its call-back was using the library"); }
void on_info(const std::string& s) { message("I ", "info", s); }
void on_warning(const std::string& s) { message("W ", "warning", s); }
void on_error(const std::string& s) { message("E ", "error", s); }
struct Sink { std::vector<std::string> mine, *keep = sink; Sink() { sink = &mine; } ~Sink() { sink = keep; } };
void install() { Log::set_log_info_callback(on_info); Log::set_log_warning_callback(on_warning); Log::set_log_error_callback(on_error); }
// hands out one line at a time
class Lines : public std::streambuf {
  std::string s; size_t p = 0; std::string cur;
  int_type underflow() override { if (p >= s.size()) return traits_type::eof(); call_out("stream"); size_t e = s.find('\n', p); e = e == std::string::npos ? s.size() : e + 1; if (e - p < 12 && e < s.size()) { e = s.find('\n', e); e = e == std::string::npos ? s.size() : e + 1; } cur = s.substr(p, e - p); p = e; setg(&cur[0], &cur[0], &cur[0] + cur.size()); return traits_type::to_int_type(cur[0]); }
public:
  explicit Lines(const std::string& t) : s(t) {}
};
class LineStream : public std::istream { Lines b; public: explicit LineStream(const std::string& t) : std::istream(nullptr), b(t) { rdbuf(&b); } };
struct HookFS : FileSystem {
  std::shared_ptr<Files> f; bool lines; std::vector<std::string>* opened;
  HookFS(std::shared_ptr<Files> files, bool l, std::vector<std::string>* o) : f(files), lines(l), opened(o) {}
  std::vector<std::string> open_directory(const std::string& p) override { call_out("open_directory"); std::vector<std::string> r; auto i = f->dirs.find(p); if (i != f->dirs.end()) for (auto& e : i->second) r.push_back(e.first); return r; }
  std::unique_ptr<std::istream> open_file(const std::string& n) override {
    if (opened) opened->push_back(n); call_out("open_file");
    for (auto& d : f->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == n) { if (lines) return std::unique_ptr<std::istream>(new LineStream(e.second)); return std::unique_ptr<std::istream>(new std::istringstream(e.second)); }
    return std::unique_ptr<std::istream>();
  }
};
// ---- the world in which everything happens ----
const std::shared_ptr<Files>& files() {
  static const std::shared_ptr<Files> f = [] {
    auto r = std::make_shared<Files>();
    r->dirs["p"] = {{"xx.po", ""}, {"de.po", header("ISO-8859-1", R2) + "\nmsgid \"who\"\nmsgstr \"p/de\xe4\"\n\nmsgid \"base\"\nmsgstr \"p/de base\"\n\nmsgid bad\n"}, {"de_AT.po", header("UTF-8", R2) + "\nmsgid \"who\"\nmsgstr \"p/de_AT\"\n\nmsgctxt \"c\"\nmsgid \"who\"\nmsgstr \"cp/de_AT\"\n"}, {"fr.po", header("UTF-8") + "\nmsgid \"who\"\nmsgstr \"p/fr\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"nf\"\n"}};
    r->dirs["q"] = {{"de.po", header("UTF-8", R2) + "\nmsgid \"who\"\nmsgstr \"q/de\"\n\nmsgid \"low\"\nmsgstr \"q/de low\"\n"}, {"de_AT.po", header("KOI8-R") + "\nmsgid \"low\"\nmsgstr \"q/de_AT low\xc1\"\n"}};
    return r;
  }();
  return f;
}
struct World {
  std::vector<std::string> opened; std::unique_ptr<DictionaryManager> m; Dictionary d{"UTF-8"}, other{"ISO-8859-1"}; tinygettext::IConv conv{"UTF-8", "ISO-8859-1"};
  explicit World(bool lines) : m(new DictionaryManager(std::unique_ptr<FileSystem>(new HookFS(files(), lines, &opened)))) {
    m->add_directory("p"); m->add_directory("q"); d.set_plural_forms(forms(R2)); d.add_translation("who", "d"); d.add_translation("c", "who", "cd"); other.add_translation("who", "o");
  }
};
const Language& L(int i) { static const std::vector<Language> v = {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("fr"), Language::from_spec("fr", "CA")}; return v[static_cast<size_t>(i)]; }
std::string answers(Dictionary& d) { std::string o; for (const char* id : {"who", "base", "low", "none"}) o += d.translate(id) + "|" + d.translate_ctxt("c", id) + "|"; return o + d.translate_plural("n", "ns", 2); }
const std::string PO = header("ISO-8859-1", R2) + "\nmsgid  \"a\"\nmsgstr \"A\xe9\"\n\nmsgid \"bad\n\nmsgid \"who\"\nmsgstr \"new\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"1\"\n";
// ---- what the outer call is; returns what its caller sees ----
const int NOUT = 12;
std::string outer(World& w, int k, bool lines) {
  switch (k) {
    case 0: return answers(w.m->get_dictionary(L(0)));
    case 1: return answers(w.m->get_dictionary(L(1)));
    case 2: w.m->set_language(L(1)); return answers(w.m->get_dictionary());
    case 3: { std::string o; std::set<std::string> s; for (auto& l : w.m->get_languages()) s.insert(l.str()); for (auto& n : s) o += n + " "; return o; }
    case 4: if (lines) { LineStream in(PO); POParser::parse("a.po", in, w.d); } else { std::istringstream in(PO); POParser::parse("a.po", in, w.d); } return show(snap(w.d));
    case 5: return w.d.translate("absent") + w.d.translate_ctxt("c", "absent") + w.d.translate_plural("who", "s", 2) + w.d.translate_ctxt_plural("x", "absent", "absents", 2);
    case 6: w.d.add_translation("who", "changed"); w.d.add_translation("c", "who", "changed too"); w.d.add_translation("who", "whos", Strings{"1", "2"}); w.d.add_translation("c", "who", "whos", Strings{"c1", "c2"}); return show(snap(w.d));
    case 7: return w.conv.convert("ok \xc3\xa9") + w.conv.convert("bad \xd0\x96 tail") + w.conv.convert("ok");
    case 8: w.m->set_language(L(2)); return answers(w.m->get_dictionary()) + w.m->get_language().str();
    case 9: return answers(w.m->get_dictionary(L(3)));
    case 10: w.m->set_charset("ISO-8859-1"); return answers(w.m->get_dictionary(L(0)));
    default: { std::string t = header("NO-SUCH") + "\nmsgid \"z\"\nmsgstr \"Z\"\n"; try { if (lines) { LineStream in(t); POParser::parse("b.po", in, w.other); } else { std::istringstream in(t); POParser::parse("b.po", in, w.other); } } catch (std::runtime_error&) { return "throws"; } return show(snap(w.other)); }
  }
}
// ---- what the callbacks do; the answers are checked where they are exact ----
std::string why;   // an exception must not leave a log callback, so failures are kept for later
void note_fail(const std::string& m) { if (why.empty()) why = m; }
void expect(const std::string& got, const std::string& want, const std::string& what) { if (got != want) note_fail("nested " + what + " gives " + mc::quote(got) + ", expected " + mc::quote(want)); }
void partial(Dictionary& d, const std::string& what) { // complete or not: every answer is one some state of loading may give
  static const std::set<std::string> ok = {"who", "p/de\xc3\xa4", "p/de_AT", "q/de", "p/fr", "d", "new", "changed", "1"}, low = {"low", "q/de low", "q/de_AT low\xd0\xb0"};
  std::string a = d.translate("who"), b = d.translate("low"), c = d.translate_ctxt("c", "who"), n = d.translate("none"); (void)d.translate_plural("n", "ns", 3); (void)d.get_charset(); (void)d.get_plural_forms();
  if (d.get_charset() == "UTF-8" && !ok.count(a)) note_fail("nested " + what + ": who translates to " + mc::quote(a)); if (d.get_charset() == "UTF-8" && !low.count(b)) note_fail("nested " + what + ": low translates to " + mc::quote(b)); if (n != "none") note_fail("nested " + what + ": an unknown message translates to " + mc::quote(n)); (void)c;
}
const char* const NEST[] = {"nothing", "resolving languages", "plural rules", "parsing a good file", "parsing a faulty file", "lookups in another dictionary", "lookups in the dictionary at work", "listing the dictionary at work", "get_dictionary(de)", "get_dictionary(de_AT)", "get_dictionary(fr)", "get_dictionary()", "get_languages", "another manager", "another converter", "adding to another dictionary", "the same converter's settings elsewhere"};
const int NNEST = 17;
void nested(Ctx& x, World& w, int k) {
  x.step(); switch (k) {
    case 1: expect(Language::from_name("GERMAN").str() + Language::from_env("sr@latin").str() + (Language::from_env("qq") ? "?" : ""), "de_DEsr@latin", NEST[k]); break;
    case 2: expect(std::to_string(forms("nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);").get_plural(22)) + (forms("nplurals=9; plural=n;") ? "?" : ""), "1", NEST[k]); break;
    case 3: { Dictionary d; std::istringstream in(header("KOI8-R", R2) + "\nmsgid \"a\"\nmsgstr \"\xc1\"\n\nmsgid \"b\"\nmsgstr \"\\tB\"\n"); POParser::parse("g.po", in, d); expect(d.translate("a") + d.translate("b"), "\xd0\xb0\tB", NEST[k]); break; }
    case 4: { Dictionary d("ISO-8859-1"); std::istringstream in(header("BIG5") + "\nmsgid \"a\nmsgstr \"\"\n\nmsgid \"b\"\nmsgstr \"B\" x\n\nmsgid  \"e\"\nmsgstr \"\"\n \"E\"\n\n#, fuzzy\nmsgid \"c\"\nmsgstr \"C\""); POParser::parse("f.po", in, d, false); expect(d.translate("b") + d.translate("c") + d.translate("e"), "BcE", NEST[k]); break; }
    case 5: expect(w.other.translate("who") + w.other.translate("absent") + w.other.translate_ctxt_plural("k", "one", "two", 5), "oabsenttwo", NEST[k]); break;
    case 6: partial(w.d, NEST[k]); if (w.d.translate("who") == "who" || w.d.translate_ctxt("c", "who") == "who") note_fail("nested lookup finds a message gone that has been there all the time"); break;
    case 7: { Snap s = snap(w.d); if (s.repeats) note_fail("nested listing visits an entry twice"); break; }
    case 8: partial(w.m->get_dictionary(L(0)), NEST[k]); break;
    case 9: partial(w.m->get_dictionary(L(1)), NEST[k]); break;
    case 10: partial(w.m->get_dictionary(L(2)), NEST[k]); break;
    case 11: { Dictionary& d = w.m->get_dictionary(); partial(d, NEST[k]); if (w.m->get_language() && &d != &w.m->get_dictionary(w.m->get_language())) note_fail("nested get_dictionary() is another dictionary than the one of the current language"); break; }
    case 12: expect(std::to_string(w.m->get_languages().size()), "3", NEST[k]); break;
    case 13: { DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(files()))); m.add_directory("q"); m.set_language(L(1)); expect(std::to_string(m.get_languages().size()) + m.get_dictionary().translate("low") + m.get_dictionary().translate("who"), "2q/de_AT low\xd0\xb0q/de", NEST[k]); break; }
    case 14: { tinygettext::IConv c("UTF-8", "ISO-8859-1"); std::string a = c.convert("\xc3\xa9"); c.set_charsets("ISO-8859-1", "UTF-16BE"); expect(a + c.convert("\xe9"), std::string("\xe9\0\xe9", 3), NEST[k]); break; }
    case 15: { Dictionary d; d.add_translation("a", "A"); d.add_translation("a", "B"); d.add_translation("a", "as", Strings{"C", "D"}); expect(d.translate("a"), "C", NEST[k]); break; }
    case 16: { Dictionary d("UTF-16LE"); std::istringstream in("msgid \"a\"\nmsgstr \"\xc3\xa9\"\n"); POParser::parse("h.po", in, d); expect(d.translate("a"), std::string("\xe9\0", 2), NEST[k]); break; }
    default: break;
  }
}
// nested things whose messages, and whose effect on the messages of the outer call, do not depend on when they happen
bool independent(int k) { return (k >= 1 && k <= 5) || (k >= 13 && k <= 16); }
std::string lines_of(const std::vector<std::string>& v) { std::string o; for (auto& e : v) o += e; return o; }
const std::vector<std::string>& messages_alone(Ctx& x, World& w, int k) {
  static std::map<int, std::vector<std::string>> memo; auto i = memo.find(k); if (i != memo.end()) return i->second;
  auto keep = hook; hook = nullptr; Sink s; nested(x, w, k); hook = keep; return memo[k] = s.mine;
}
void nested_quietly(Ctx& x, World& w, int k) { // with its messages compared
  const std::vector<std::string>& want = messages_alone(x, w, k); Sink s; nested(x, w, k); if (s.mine != want) note_fail(std::string("nested ") + NEST[k] + " reports\n" + lines_of(s.mine) + "instead of\n" + lines_of(want));
}
std::map<std::pair<std::vector<int>, bool>, std::vector<std::vector<std::string>>> messages;   // of the calls without any nesting
// what everything gives without any nesting
const std::vector<std::string>& alone(const std::vector<int>& ops, bool lines) {
  static std::map<std::pair<std::vector<int>, bool>, std::vector<std::string>> memo; auto i = memo.find({ops, lines}); if (i != memo.end()) return i->second;
  auto keep = hook; hook = nullptr; std::vector<std::string> r; { World w(lines); auto& ms = messages[{ops, lines}]; for (int k : ops) { Sink s; r.push_back(outer(w, k, lines)); ms.push_back(s.mine); } r.push_back(answers(w.m->get_dictionary(L(0))) + answers(w.m->get_dictionary(L(1))) + answers(w.m->get_dictionary(L(2))) + answers(w.m->get_dictionary()) + show(snap(w.d))); } hook = keep;
  return memo[{ops, lines}] = r;
}
struct NoHook { NoHook() { why.clear(); } ~NoHook() { hook = nullptr; level = 0; } };
struct Broken : std::runtime_error { Broken() : std::runtime_error("file system down") {} };
void judge_world(Ctx& x, World& w, const std::string& log, const std::string& want) {
  hook = nullptr; if (!why.empty()) x.fail(log + why); std::string got = answers(w.m->get_dictionary(L(0))) + answers(w.m->get_dictionary(L(1))) + answers(w.m->get_dictionary(L(2))) + answers(w.m->get_dictionary()) + show(snap(w.d));
  if (got != want) x.fail(log + "afterwards everything answers\n" + got + "\ninstead of\n" + want);
}
// each call-out may do one of the nested things; at most a bounded number of them do
void once(Ctx& x, int len, bool lines, bool faults) {
  static bool warm = [] { install(); World a(false), b(true); for (int k = 0; k < NOUT; ++k) { outer(a, k, false); outer(b, k, true); } Ctx* none = nullptr; (void)none; return true; }(); (void)warm;
  std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(x.choose(NOUT)); const std::vector<std::string>& want = alone(ops, lines);
  std::string log; NoHook clean; World w(lines); size_t places = 0; bool reload = false, same = true;
  for (size_t i = 0; i < ops.size(); ++i) {
    log += "call " + std::to_string(ops[i]) + ": "; reload |= ops[i] == 10; int call = ops[i];
    hook = [&](const char* where) {
      ++places; bool fs = where[0] == 'o'; if (level > 2) return;
      int k = x.deviate(NNEST + (faults && fs && level == 1 ? 2 : 0)); if (!k) return;
      if (k >= NNEST) { same = false; log += std::string(where) + " throws" + (k > NNEST ? " after get_dictionary(); " : "; "); if (k > NNEST) { Sink s; nested(x, w, 11); } throw Broken(); }
      log += std::string(where) + (level > 1 ? " (nested)" : "") + " does " + NEST[k] + "; ";
      if (k == 8 || k == 9 || k == 10 || k == 11 || k == 12) { same = false; Sink s; try { nested(x, w, k); } catch (Broken&) {} } else if (independent(k)) nested_quietly(x, w, k); else { Sink s; nested(x, w, k); }
    };
    Sink top; std::string got; bool threw = false; try { got = outer(w, call, lines); } catch (Broken&) { threw = true; } x.step(); hook = nullptr; level = 0;
    if (!why.empty()) x.fail(log + why); if (threw) { got = outer(w, call, lines); log += "(asked again) "; }
    if (same && !threw && log.find("throws") == std::string::npos) { auto& ms = messages[{ops, lines}][i]; if (top.mine != ms) x.fail(log + "\nreports\n" + lines_of(top.mine) + "instead of\n" + lines_of(ms)); }
    if (got != want[i] && !(log.find("throws") != std::string::npos && got.find("|") != std::string::npos && !threw)) x.fail(log + "\ngives " + mc::quote(got, 2000) + "\ninstead of " + mc::quote(want[i], 2000));
  }
  bool thrown = log.find("throws") != std::string::npos;
  if (thrown) w.m->set_charset(reload ? "ISO-8859-1" : "UTF-8");       // a file that could not be opened stays missing until the configuration changes
  judge_world(x, w, log + "\n", want.back());
  if (!thrown && !reload) { std::map<std::string, int> n; for (auto& f : w.opened) if (++n[f] > 2) x.fail(log + ": " + f + " was opened " + std::to_string(n[f]) + " times"); }
  x.note(log + std::to_string(places) + " call-outs"); x.state(log);
}
// every call-out at every depth does the same thing
void always(Ctx& x, bool lines) {
  int a = x.choose(NOUT), b = x.choose(NOUT), k = 1 + x.choose(NNEST - 1), where = x.choose(5);
  if (k == 4 || k == 5 || k == 13 || k == 15 || k == 6) { x.trivial(); return; }        // logs something itself each time
  static const char* W[] = {"info", "warning", "error", "open_", ""}; std::vector<int> ops = {a, b}; const std::vector<std::string>& want = alone(ops, lines); std::string log = std::string("every ") + W[where] + " call-out does " + NEST[k] + ": calls " + std::to_string(a) + ", " + std::to_string(b) + "\n"; x.note(log);
  if (where >= 3 && k == 12) { x.trivial(); return; }                                    // asks the file system itself
  if (where == 0 || where == 4) if (k == 8 || k == 9 || k == 10 || k == 11) { x.trivial(); return; }  // the lookups of the callback are reported as information
  NoHook clean; World w(lines); deepest = 0; std::vector<std::string> got;
  hook = [&](const char* at) { if (std::string(at).compare(0, strlen(W[where]), W[where]) != 0) return; if (level > 12) { note_fail("nested without end"); hook = nullptr; return; }; if (k >= 8 && k <= 11) { (void)(k == 11 ? &w.m->get_dictionary() : &w.m->get_dictionary(L(k - 8))); x.step(); } else nested(x, w, k); };
  for (int o : ops) got.push_back(outer(w, o, lines));
  hook = nullptr; level = 0; for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) x.fail(log + "gives " + mc::quote(got[i], 2000) + "\ninstead of " + mc::quote(want[i], 2000));
  judge_world(x, w, log, want.back()); x.state(log);
}
// nothing is left allocated by nested use
void leaks(Ctx& x) {
  int a = x.choose(NOUT), k = 1 + x.choose(NNEST - 1), at = x.choose(30); bool lines = x.choose(2); std::string log = "call " + std::to_string(a) + ", call-out " + std::to_string(at) + " does " + NEST[k]; x.note(log); NoHook clean; bool reached = false; uint64_t steps = 0;
  size_t n = leaked([&] { World w(lines); int i = 0; hook = [&](const char*) { if (i++ == at && level == 1) { reached = true; nested(x, w, k); } }; outer(w, a, lines); hook = nullptr; level = 0; ++steps; });
  if (!reached) { x.trivial(); return; } if (!why.empty()) x.fail(log + ": " + why); if (n) x.fail(log + " leaves " + std::to_string(n) + " bytes allocated"); x.state(log);
}
std::vector<mc::Exploration> all(bool t) {
  install(); std::vector<mc::Exploration> e;
  auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f, int dev) { e.push_back({n, b, f}); e.back().deviation_bound = dev; e.back().max_seconds = 2500; e.back().shard_depth = std::string(n) == "two-calls" ? 2 : 1; };   // choices inside of callbacks must not end the execution
  std::string o = std::to_string(NOUT), m = std::to_string(NNEST - 1); int b1 = 2;
  put("one-call", "one of " + o + " calls, at most " + std::to_string(b1) + " of its call-outs (log callbacks, file system; up to two levels deep) do one of " + m + " nested things", [](Ctx& x) { once(x, 1, false, false); }, b1);
  put("streams", "the same with streams that also call out while they are read, at most " + std::string(t ? "2" : "1") + " nested uses", [](Ctx& x) { once(x, 1, true, false); }, t ? 2 : 1);
  put("two-calls", "two calls one after the other, at most " + std::string(t ? "2" : "1") + " nested uses", [](Ctx& x) { once(x, 2, false, false); }, t ? 2 : 1);
  put("faults", "one call, at most " + std::to_string(b1) + " nested uses or exceptions of the file system, also right after a nested get_dictionary()", [](Ctx& x) { once(x, 1, false, true); }, b1);
  put("always", "two calls during which every call-out of a kind, at any depth, does one of " + m + " nested things", [](Ctx& x) { always(x, false); }, -1);
  put("always-streams", "the same with streams that call out", [](Ctx& x) { always(x, true); }, -1);
  put("leaks", o + " calls x " + m + " nested things x the first 30 call-outs, with and without streams that call out", leaks, -1);
  return e;
}
}
mc::Property mc::property = {"C22", "model_checking", "", {"nested use does not change the configuration of the manager at work nor add to the dictionary at work", "a log callback does not let exceptions escape"}, all};
