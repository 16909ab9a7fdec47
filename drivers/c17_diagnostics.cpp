// C17: diagnostics: severity, callback in force, completeness, file and line; results do not depend on callbacks.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include "mgr.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
struct Msg { int cb; std::string text; };        // cb: severity * 2 + which of its two callbacks
std::vector<Msg> got;
template <int N> void cb(const std::string& s) { got.push_back({N, s}); }
typedef void (*CB)(const std::string&);
CB CBS[3][4] = {{nullptr, cb<0>, cb<1>, Log::default_log_callback}, {nullptr, cb<2>, cb<3>, Log::default_log_callback}, {nullptr, cb<4>, cb<5>, Log::default_log_callback}};
// everything written to the standard streams in the meantime
struct Capture {
  std::ostringstream o; std::streambuf *e, *c, *l; FILE *fe, *fo, *m; char* p = nullptr; size_t n = 0;
  Capture() : e(std::cerr.rdbuf(o.rdbuf())), c(std::cout.rdbuf(o.rdbuf())), l(std::clog.rdbuf(o.rdbuf())), fe(stderr), fo(stdout), m(open_memstream(&p, &n)) { stderr = m; stdout = m; }
  ~Capture() { stderr = fe; stdout = fo; std::cerr.rdbuf(e); std::cout.rdbuf(c); std::clog.rdbuf(l); fclose(m); free(p); }
  std::string text() { fflush(m); return o.str() + std::string(p, n); }
};
void set(int sev, int which) { CB c = CBS[sev][which]; if (sev == 0) Log::set_log_info_callback(c); else if (sev == 1) Log::set_log_warning_callback(c); else Log::set_log_error_callback(c); }
void set_all(int which) { for (int s = 0; s < 3; ++s) set(s, which); }
const char* SEV[] = {"info", "warning", "error"};
std::string show(const std::vector<Msg>& v) { std::string o; for (auto& m : v) o += std::string(SEV[m.cb / 2]) + (m.cb % 2 ? "(B) " : " ") + mc::quote(m.text, 200) + "\n"; return o; }
size_t count(int sev) { size_t n = 0; for (auto& m : got) n += m.cb / 2 == sev; return n; }
void complete(Ctx& x, const std::string& what) { for (auto& m : got) if (m.text.empty() || m.text.back() != '\n' || m.text.find_first_not_of(" \n") == std::string::npos) x.fail(what + ": a message is not complete: " + mc::quote(m.text)); }

// ---- events on fresh objects; each returns what the caller can observe of the result ----
struct Throwing : FileSystem { int mode; explicit Throwing(int m) : mode(m) {} std::vector<std::string> open_directory(const std::string&) override { return {"de.po", "notalanguage.po", "README"}; } std::unique_ptr<std::istream> open_file(const std::string&) override { if (mode == 0) return nullptr; if (mode == 1) throw std::runtime_error("cannot open"); auto s = std::unique_ptr<std::istream>(new std::istringstream(mode == 3 ? header("NOSUCH") + "\nmsgid \"a\"\nmsgstr \"b\"\n" : "")); if (mode == 2) s->setstate(std::ios::failbit); return s; } };
const std::string RULE = "nplurals=2; plural=(n != 1);";
std::string load(const std::string& t) { Dictionary d; parse(t, d, "dir/x y.po"); return tg::show(snap(d)); }
const int NEV = 17;
std::string event(int e) {
  Dictionary d; d.set_plural_forms(forms(RULE));
  switch (e) {
    case 0: return d.translate("missing one");
    case 1: d.add_translation("a", "A"); return d.translate("a");
    case 2: d.add_translation("a", "A"); d.add_translation("a", "B"); return d.translate("a");
    case 3: return load(header("UTF-8", RULE) + "\nmsgid \"bad\n\nmsgid \"g\"\nmsgstr \"G\"\n");
    case 4: return load(header("UTF-8", RULE) + "\nmsgid  \"two spaces\"\nmsgstr \"un\\known\" garbage\n");
    case 5: return d.translate_ctxt("c", "missing two");
    case 6: d.add_translation("z", "Z"); return d.translate_plural("missing three", "missing threes", 2);
    case 7: d.add_translation("c", "p", "ps", {"1", "2"}); d.add_translation("c", "p", "ps", {"1", "3"}); return d.translate_ctxt_plural("c", "p", "ps", 2);
    case 8: case 9: case 10: case 11: { DictionaryManager dm(std::unique_ptr<FileSystem>(new Throwing(e - 8))); dm.add_directory("p"); return tg::show(snap(dm.get_dictionary(Language::from_spec("de")))); }
    case 12: return load(header("ISO-8859-15") + "\nmsgid \"a\"\nmsgstr \"\xe4\"\n\ngarbage\n\nmsgid \"a\"\nmsgstr \"\xa4\"\n");
    case 13: { Dictionary l("ISO-8859-1"); parse(header("UTF-8") + "\nmsgid \"a\"\nmsgstr \"\xd0\x96\"\n\nmsgid \"b\"\nmsgstr \"B\"\n", l); return l.translate("b"); }
    case 14: return load("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/html\\n\"\n\"Plural-Forms: nplurals=9; plural=nonsense;\\n\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"0\"\n");
    case 15: d.add_translation("e", ""); return d.translate("e") + d.translate_plural("e", "es", 1);
    default: { Dictionary base; base.add_translation("a", "BASE"); d.addFallback(&base); return d.translate("a") + d.translate_plural("a", "as", 1) + d.translate_ctxt("c", "a"); }
  }
}
struct Base { std::vector<Msg> m; std::string result; };
const Base& base(int e) { static std::map<int, Base> memo; auto i = memo.find(e); if (i != memo.end()) return i->second; auto save = got; got.clear(); set_all(1); Base b; b.result = event(e); b.m = got; got = save; return memo[e] = b; }
struct Warm { Warm() { for (int e = 0; e < NEV; ++e) base(e); } };

// what each event must be reported as, all callbacks installed
void severity(Ctx& x) {
  int e = x.choose(NEV); static const int want[NEV] = {0, -1, 1, 2, 1, 0, 0, 1, 2, 2, 2, 2, 2, 2, 1, -2, -2};
  static const char* mention[NEV] = {"missing one", "", "a", "dir/x y.po:", "dir/x y.po:", "missing two", "missing three", "p", "p/de.po", "p/de.po", "p/de.po", "p/de.po", "", "", "dir/x y.po:", "", ""};
  set_all(1); got.clear(); std::string r = event(e); x.step(); x.note("event " + std::to_string(e) + "\n" + show(got)); complete(x, "event " + std::to_string(e));
  int w = want[e]; x.state(show(got));
  if (w == -1) { if (!got.empty()) x.fail("event " + std::to_string(e) + " must be silent:\n" + show(got)); return; }
  if (w < 0) return;
  if (!count(w)) x.fail("event " + std::to_string(e) + " must be reported as " + SEV[w] + ", reported:\n" + show(got));
  bool named = false; for (auto& m : got) if (m.cb / 2 == w) named |= m.text.find(mention[e]) != std::string::npos;
  if (!named) x.fail("event " + std::to_string(e) + " must mention " + mention[e] + ":\n" + show(got));
  for (int s = w + 1; s < 3; ++s) if (count(s)) x.fail("event " + std::to_string(e) + " is a " + SEV[w] + ", but reported as " + SEV[s] + ":\n" + show(got));
}
// histories of installing callbacks and of events
void history(Ctx& x, int depth) {
  static Warm w; int cur[3]; std::string log;
  for (int s = 0; s < 3; ++s) { cur[s] = 1; set(s, 1); }
  for (int i = 0; i < depth; ++i) {
    int o = x.choose(12 + NEV);
    if (o < 12) { cur[o / 4] = o % 4; set(o / 4, o % 4); log += std::string("set ") + SEV[o / 4] + " to " + (o % 4 == 0 ? "null" : o % 4 == 1 ? "A" : o % 4 == 2 ? "B" : "the default") + "; "; continue; }
    int e = o - 12; log += "event " + std::to_string(e) + "; "; const Base& b = base(e); 
    for (int s = 0; s < 3; ++s) set(s, cur[s]);
    got.clear(); std::string r, out; { Capture c; r = event(e); out = c.text(); } x.step();
    std::vector<Msg> want; std::string wout; for (auto& m : b.m) { int s = m.cb / 2; if (cur[s] == 3) wout += "tinygettext: " + m.text; else if (cur[s]) want.push_back({s * 2 + cur[s] - 1, m.text}); }
    bool same = want.size() == got.size(); for (size_t k = 0; same && k < got.size(); ++k) same = got[k].cb == want[k].cb && got[k].text == want[k].text;
    if (!same) x.fail("after " + log + "delivered:\n" + show(got) + "expected:\n" + show(want));
    if (out != wout) x.fail("after " + log + "written to the standard streams:\n" + out + "expected:\n" + wout);
    if (r != b.result) x.fail("after " + log + "the result is " + r + " instead of " + b.result);
    x.state(show(got) + log.substr(log.size() - 3));
  }
  x.note(log);
}
// ---- faults and questionable input at every position of a file ----
struct Fault { Strings lines; int sev, lo, hi; };  // line of the diagnostic relative to the first line of the entry
const std::vector<Fault> FAULTS = {
  {{"msgid \"bad", "msgstr \"B\""}, 2, 0, 0}, {{"msgid \"bad\""}, 2, 0, 1}, {{"msgid \"bad\"", "msgstr \"B"}, 2, 1, 1}, {{"msgstr \"B\""}, 2, 0, 0}, {{"garbage"}, 2, 0, 0}, {{"msgid \"bad\"", "msgid_plural \"bads\""}, 2, 0, 2},
  {{"msgid \"bad\"", "msgstr"}, 2, 1, 1}, {{"msgid \"bad\"", "msgstr \"B\\"}, 2, 1, 1}, {{"msgid \"bad\"", "\"more", "msgstr \"B\""}, 2, 1, 1}, {{"msgid \"bad\"", "msgstr[0] \"B\""}, 2, 1, 1}, {{"msgid", "msgstr \"B\""}, 2, 0, 0},
  {{"msgid \"bad\"", "msgid_plural \"bads\"", "msgstr[0] \"B\"", "msgstr[x] \"C\""}, 2, 3, 3}, {{"msgctxt \"bad\""}, 2, 0, 1}, {{"#, c-format", "msgctxt \"c\"", "msgid \"bad\"", "msgstr \"B"}, 2, 3, 3}, {{"msgid \"bad\"", "msgstr \"\"", "\"B\"", "\"C"}, 2, 3, 3}, {{"msgid \"bad\"", "msgstr \"B\"", "garbage"}, 2, 2, 2},
  {{"msgid \"w\"", "msgstr \"\\q\""}, 1, 1, 1}, {{"msgid \"w\" garbage", "msgstr \"W\""}, 1, 0, 0}, {{"msgid  \"w\"", "msgstr \"W\""}, 1, 0, 0}, {{"msgid \"w\"", "msgstr\t\"W\""}, 1, 1, 1}, {{"msgid \"w\"", " \"v\"", "msgstr \"W\""}, 1, 1, 1}, {{"# c", "#. d", "msgid \"w\"", "msgstr \"\"", "\"W\"", "\"\\z\""}, 1, 5, 5},
  {{"msgid \"w\"", "msgid_plural \"ws\"", "msgstr[0] \"W\""}, 1, 0, 3}, {{"msgid \"w\"", "msgid_plural \"ws\"", "msgstr[0] \"W\"", "msgstr[1] \"\\ \""}, 1, 3, 3},
  {{"msgid \"g\"", "msgstr \"G\""}, -1, 0, 0},
};
bool located(const std::string& m, const std::string& file, int lo, int hi, int& line) {
  if (m.compare(0, file.size() + 1, file + ":") != 0) return false;
  size_t i = file.size() + 1, j = i; while (j < m.size() && isdigit(static_cast<unsigned char>(m[j]))) ++j;
  if (j == i || j >= m.size() || m[j] != ':') return false;
  line = atoi(m.c_str() + i); return line >= lo && line <= hi;
}
void positions(Ctx& x, int most) {
  int n = 1 + x.choose(most), hd = x.choose(3), crlf = x.choose(2), bom = x.choose(2);
  static const Strings files = {"x.po", "/a dir/b:7: c.po", ""}; const std::string& file = files[static_cast<size_t>(x.choose(3))];
  std::vector<std::string> lines; if (hd) { std::istringstream h(header("UTF-8", RULE)); std::string l; if (hd == 2) { lines.push_back("# comment"); lines.push_back("#"); lines.push_back(" "); } while (std::getline(h, l)) lines.push_back(l); lines.push_back(""); }
  struct W { int sev, lo, hi, first, last; }; std::vector<W> want; bool plural_warn = !hd;
  for (int i = 0; i < n; ++i) {
    const Fault& f = FAULTS[static_cast<size_t>(x.choose(static_cast<int>(FAULTS.size())))]; int first = static_cast<int>(lines.size()) + 1;
    bool plural = false; for (auto& l : f.lines) { lines.push_back(l); plural |= l.compare(0, 12, "msgid_plural") == 0; }
    if (plural && f.sev == 1 && plural_warn) { x.trivial(); return; }         // a second warning would be due
    if (f.sev >= 0) want.push_back({f.sev, first + f.lo, first + f.hi, first, static_cast<int>(lines.size()) + 1});
    lines.push_back(""); if (i == 0) lines.push_back("");
  }
  std::string t = bom ? "\xef\xbb\xbf" : ""; for (auto& l : lines) t += l + (crlf ? "\r\n" : "\n");
  x.note(t);
  set_all(1); got.clear(); Dictionary d; parse(t, d, file); x.step(); complete(x, t);
  // redefinitions of the same message are reported by the dictionary, without position
  std::vector<Msg> m; for (auto& g : got) { int line; if (g.cb / 2 == 1 && !located(g.text, file, 0, 1 << 30, line)) continue;
    bool extra = false; if (g.cb / 2 == 1) for (auto& w : want) extra |= w.sev == 2 && line >= w.first && line <= w.last;   // questionable input inside a malformed entry
    if (!extra) m.push_back(g); }
  if (m.size() != want.size()) x.fail(std::to_string(want.size()) + " diagnostics with a position are due for:\n" + t + "\nreported:\n" + show(got));
  for (size_t i = 0; i < m.size(); ++i) {
    int line = -1; bool ok = located(m[i].text, file, want[i].lo, want[i].hi, line);
    if (m[i].cb / 2 != want[i].sev) x.fail(std::string("a ") + SEV[want[i].sev] + " is due, reported as " + SEV[m[i].cb / 2] + ": " + m[i].text + "in:\n" + t);
    if (!ok) x.fail("the message must name " + file + " and a line from " + std::to_string(want[i].lo) + " to " + std::to_string(want[i].hi) + ": " + m[i].text + "in:\n" + t);
  }
  x.state(show(got));
}
// line numbers far into a file
void far(Ctx& x, int top) {
  int f = x.choose(static_cast<int>(FAULTS.size())), n = (1 << x.choose(top)) - 1 + x.choose(3), what = x.choose(3);
  std::string t = header("UTF-8", RULE) + "\n"; int line = 8;
  { int c = 0; for (char ch : t) c += ch == '\n'; line = c + 1; }
  for (int i = 0; i < n; ++i) { if (what == 0) { t += "\n"; line += 1; } else if (what == 1) { t += "# comment " + std::to_string(i) + "\n"; line += 1; } else { std::string k = std::to_string(i); t += "msgid \"k" + k + "\"\nmsgstr \"\"\n\"v" + k + "\"\n\n"; line += 4; } }
  const Fault& ft = FAULTS[static_cast<size_t>(f)]; for (auto& l : ft.lines) t += l + "\n"; t += "\n";
  set_all(1); got.clear(); Dictionary d; parse(t, d, "f.po"); x.step(); x.note("fault " + std::to_string(f) + " in line " + std::to_string(line));
  if (ft.sev < 0) { if (!got.empty()) x.fail("no diagnostic is due:\n" + show(got)); return; }
  if (ft.sev == 2) for (size_t i = 0; i < got.size();) if (got[i].cb / 2 == 1) got.erase(got.begin() + static_cast<long>(i)); else ++i;
  int l = -1; if (got.size() != 1 || got[0].cb / 2 != ft.sev || !located(got[0].text, "f.po", line + ft.lo, line + ft.hi, l)) x.fail("one " + std::string(SEV[ft.sev]) + " naming line " + std::to_string(line + ft.lo) + ".." + std::to_string(line + ft.hi) + " is due:\n" + show(got));
  x.state(static_cast<uint64_t>(l));
}
// lookups and redefinitions on small dictionaries
void dictionary(Ctx& x, int adds) {
  set_all(1); Dictionary d; d.set_plural_forms(forms(RULE)); std::string log; static const std::string C = "c"; std::map<std::string, Strings> have;
  for (int i = 0; i < adds; ++i) {
    int k = x.choose(13); if (!k) continue; --k;
    Cx c = k / 6 ? &C : nullptr; int j = k % 6; std::string id = j < 3 ? "plain" : "plural"; std::string key = (c ? "c|" : "|") + id; got.clear();
    Strings v; if (j < 3) v = {j == 0 ? "one" : j == 1 ? "two" : "three"}; else v = {j == 3 ? "1" : j == 4 ? "1" : "2", j == 4 ? "b" : "a"};
    log += "add " + key + " " + tg::show(v) + "; ";
    if (j < 3) add(d, c, id, v[0]); else addp(d, c, id, id + "s", v);
    x.step(); bool redefined = have.count(key) && have[key] != v; have[key] = v;
    if (got.size() != (redefined ? 1u : 0u) || (redefined && (count(1) != 1 || got[0].text.find(id) == std::string::npos))) x.fail("after " + log + (redefined ? "one warning that names the message is due" : "no message is due") + ", delivered:\n" + show(got));
    complete(x, log);
  }
  for (int q2 = 0; q2 < 8; ++q2) {
    Cx c = q2 & 1 ? &C : nullptr; bool pl = q2 & 2; std::string id = q2 & 4 ? "absent" : pl ? "plural" : "plain"; std::string key = (c ? "c|" : "|") + id; got.clear();
    std::string r = pl ? trp(d, c, id, id + "s", 2) : tr(d, c, id); x.step(); complete(x, log);
    std::string what = "after " + log + "lookup of " + key + (pl ? " (plural)" : "");
    if (have.count(key)) { if (!got.empty()) x.fail(what + " succeeds and must be silent:\n" + show(got)); if (r != (pl ? have[key][1] : have[key][0])) x.fail(what + " gives " + r); }
    else { if (!count(0) || count(0) != got.size()) x.fail(what + " must be reported as info only:\n" + show(got)); if (!pl && got.size() != 1) x.fail(what + " must be reported once:\n" + show(got)); if (got[0].text.find(id) == std::string::npos) x.fail(what + " must name the message:\n" + show(got)); for (size_t a = 0; a < got.size(); ++a) for (size_t b = a + 1; b < got.size(); ++b) if (got[a].text == got[b].text) x.fail(what + " delivers a message twice:\n" + show(got)); }
  }
  x.note(log); x.state(log);
}
// texts of every length in every kind of diagnostic: one complete message that contains it (a context need not be named)
void lengths(Ctx& x, const std::vector<size_t>& at) {
  size_t n = at[static_cast<size_t>(x.choose(static_cast<int>(at.size())))]; int kind = x.choose(12), pat = x.choose(2); std::string t(n, 'x'); for (size_t i = 0; i < n; ++i) t[i] = static_cast<char>(pat ? "\xc3\xa9"[i % 2] : 'a' + i % 23);
  std::string what = "kind " + std::to_string(kind) + ", text of " + std::to_string(n) + " bytes"; x.note(what);
  Dictionary d; d.set_plural_forms(forms(RULE)); set_all(1); got.clear(); int sev = 0;
  switch (kind) {
    case 0: d.translate(t); break; case 1: d.translate_plural(t, t + "s", 2); break; case 2: d.translate_ctxt("c", t); break; case 3: d.translate_ctxt(t, "m"); break; case 4: d.translate_ctxt_plural(t, "m", "ms", 2); break; case 5: d.translate_ctxt_plural("c", t, t, 2); break;
    case 6: d.add_translation("m", t); d.add_translation("m", "other"); sev = 1; break; case 7: d.add_translation("m", "other"); d.add_translation("m", t); sev = 1; break; case 8: d.add_translation(t, "A"); d.add_translation(t, "B"); sev = 1; break;
    case 9: d.add_translation("c", t, "A"); d.add_translation("c", t, "B"); sev = 1; break;
    case 10: parse("garbage\n", d, t); sev = 2; break;
    default: { struct Odd : FileSystem { std::string n; std::vector<std::string> open_directory(const std::string&) override { return {"de.po"}; } std::unique_ptr<std::istream> open_file(const std::string&) override { return nullptr; } }; DictionaryManager dm(std::unique_ptr<FileSystem>(new Odd)); dm.add_directory(t); dm.get_dictionary(Language::from_spec("de")); sev = 2; break; }
  }
  x.step(); complete(x, what); if (n == 0 && kind == 7) { x.state("e"); return; }
  if (got.empty()) x.fail(what + ": no message is delivered");
  bool in = false; for (auto& m : got) { if (m.cb / 2 != sev) x.fail(what + ": a message of another severity\n" + show(got)); in |= m.text.find(kind == 3 || kind == 4 ? "m" : t) != std::string::npos; }
  if (!in) x.fail(what + ": no message contains the text\n" + show(got));
  if (kind != 1 && kind != 4 && kind != 5 && kind != 11 && got.size() != 1) x.fail(what + ": " + std::to_string(got.size()) + " messages\n" + show(got));
  x.state(n * 16 + static_cast<size_t>(kind));
}
// callbacks that install other callbacks while they run
int depth_now; void swap_null(const std::string& s) { got.push_back({4, s}); Log::set_log_error_callback(nullptr); }
void swap_other(const std::string& s) { got.push_back({4, s}); Log::set_log_error_callback(cb<5>); Log::set_log_warning_callback(cb<3>); }
void swapping(Ctx& x) {
  int mode = x.choose(2), n = 1 + x.choose(3); std::string t; for (int i = 0; i < n; ++i) t += "msgid \"bad\n\nmsgid \"g" + std::to_string(i) + "\"\nmsgstr \"\\q\"\n\n";
  set_all(1); Log::set_log_error_callback(mode ? swap_other : swap_null); got.clear(); Dictionary d; parse(t, d); x.step();
  std::string seq; for (auto& m : got) seq += std::to_string(m.cb); std::string want;
  for (int i = 0; i < n; ++i) { if (mode == 0) { if (i == 0) want += "4"; want += "2"; } else { want += i == 0 ? "4" : "5"; want += "3"; } }
  x.note(t); x.state(seq);
  if (seq != want) x.fail("callbacks called " + seq + ", expected " + want + "\n" + show(got));
  Snap s = snap(d); if (s.plain.size() != static_cast<size_t>(n)) x.fail("the result depends on the callbacks");
}
std::vector<mc::Exploration> all(bool t) {
  Warm w; (void)w;
  std::vector<mc::Exploration> e;
  e.push_back({"severity", "17 kinds of event, all callbacks installed", severity}); e.back().shard_depth = 1;
  int d = t ? 5 : 4;
  e.push_back({"histories", "all sequences of " + std::to_string(d) + " of 29 operations (install null, A, B or the default callback for a severity; 17 kinds of event)", [d](Ctx& x) { history(x, d); }}); e.back().max_seconds = 2500;
  int m = t ? 4 : 3;
  e.push_back({"positions", "all files of at most " + std::to_string(m) + " of 25 faulty, questionable or good entries, 3 headers, LF and CRLF, byte order mark or not, 3 file names", [m](Ctx& x) { positions(x, m); }}); e.back().shard_depth = 6; e.back().max_seconds = 2500;
  int top = t ? 12 : 9;
  e.push_back({"far", "each of 25 entries behind 2^k-1..2^k+1 blank lines, comments or entries, k < " + std::to_string(top), [top](Ctx& x) { far(x, top); }});
  e.push_back({"dictionary", "all sequences of " + std::to_string(t ? 6 : 5) + " of 13 additions, then 8 lookups", [t](Ctx& x) { dictionary(x, t ? 6 : 5); }}); e.back().max_seconds = 2000;
  std::vector<size_t> at; for (size_t i = 0; i < (t ? 4200u : 1100u); ++i) at.push_back(i); for (size_t k = 11; k < (t ? 21u : 18u); ++k) for (size_t j = 0; j < 3; ++j) at.push_back((size_t(1) << k) + j - 1);
  e.push_back({"lengths", "12 kinds of diagnostic about texts of " + std::to_string(at.size()) + " lengths (all small ones, 2^k-1..2^k+1), ASCII or not", [at](Ctx& x) { lengths(x, at); }}); e.back().shard_depth = 1;
  e.push_back({"swapping", "callbacks that replace callbacks while they run", swapping}); e.back().shard_depth = 1;
  return e;
}
}
mc::Property mc::property = {"C17", "model_checking", "", {"the wording of messages is taken from a run with all callbacks installed", "a lookup that finds a message lacking the selected form, and the number of messages for one unreadable file, are not judged"}, all};
