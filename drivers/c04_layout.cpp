// C04: every layout of a document within a bound on departures from the plain one loads the same dictionary.
#include "tg.hpp"
using namespace tg;
using mc::Ctx;

namespace {
struct Str { Strings atoms; };                       // already escaped text, may be cut between atoms
struct Field { std::string key; Str s; };
struct Entry { std::vector<Field> f; };
struct Doc { std::string name; std::vector<Entry> e; };
Field fld(const std::string& k, const Strings& a) { return {k, {a}}; }
Entry head(const std::string& cs, const std::string& rule) {
  return {{fld("msgid", {}), fld("msgstr", {"Project-Id-Version: x\\n", "Content-Type: text/plain; char", "set=" + cs.substr(0, 2), cs.substr(2), "\\n", rule.empty() ? "X-A: b\\n" : "Plural-Forms: " + rule.substr(0, 12), rule.empty() ? "" : rule.substr(12), rule.empty() ? "" : "\\n"})}};
}
const std::vector<Doc>& docs() {
  static const std::vector<Doc> v = [] {
    std::vector<Doc> r;
    const std::string two = "nplurals=2; plural=(n != 1);", three = "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);";
    Entry pl{{fld("msgid", {"one ", "file"}), fld("msgstr", {"eine", " ", "Datei"})}};
    Entry es{{fld("msgid", {"\\\"", "a\\\\"}), fld("msgstr", {"\\\\", "\\n", "#"})}};
    Entry cx{{fld("msgctxt", {"c", "t"}), fld("msgid", {"a"}), fld("msgstr", {"A", " "})}};
    Entry cp{{fld("msgctxt", {""}), fld("msgid", {"p"}), fld("msgid_plural", {"p", "s"}), fld("msgstr[0]", {"P", "0"}), fld("msgstr[1]", {"P1"})}};
    Entry p3{{fld("msgid", {"q"}), fld("msgid_plural", {"qs"}), fld("msgstr[2]", {"Q2"}), fld("msgstr[0]", {"Q0"}), fld("msgstr[1]", {" ", "Q1"})}};
    Entry un{{fld("msgid", {"u"}), fld("msgstr", {})}};
    Entry ml{{fld("msgid", {}), fld("msgstr", {"x"})}};
    ml.f[0].s.atoms = {"", "l1\\n", "l2\\n"}; 
    Entry la{{fld("msgid", {"e"}), fld("msgstr", {"\xe9", "\xfc"})}};
    Entry bg{{fld("msgid", {"b"}), fld("msgstr", {"\xa5\x5c", "\xa4\x40", "\xb3\x5c"})}};
    Entry bp{{fld("msgid", {"bp"}), fld("msgid_plural", {"bps"}), fld("msgstr[0]", {"\xa5\x5c"}), fld("msgstr[1]", {"\xa5\x7c", "\xa5\x5c"})}};
    Entry ut{{fld("msgid", {"\xef\xbb\xbf", "\xc3\xa9"}), fld("msgstr", {"\xe5\x8a\x9f", "\xef\xbb\xbf"})}};
    r.push_back({"plain", {head("UTF-8", two), pl, es}});
    r.push_back({"context", {head("UTF-8", two), cx, cp, ut}});
    r.push_back({"plurals", {head("UTF-8", three), p3, un, ml}});
    r.push_back({"headerless", {pl, cx}});
    r.push_back({"latin1", {head("ISO-8859-1", ""), la, pl}});
    r.push_back({"big5", {head("BIG5", two), bg, bp}});
    r.push_back({"header last", {pl, head("UTF-8", two)}});
    return r; }();
  return v;
}
struct Lay {                                       // answers to the layout questions
  virtual int ask(int n) = 0; virtual ~Lay() {}
};
struct Plain : Lay { int ask(int) override { return 0; } };
struct Chosen : Lay { Ctx& x; int most; Chosen(Ctx& c, int m) : x(c), most(m) {} int ask(int n) override { return x.deviate(std::min(n, most)); } };   // most: alternatives per place

const Strings GAPS = {"\n", "\n\n", " \n", "\t\n", "\n \t \n\n", " \v\f\n"};
const Strings COMMENTS = {"", "# text\n", "#\n", "#. msgid \"x\"\n", "#: a.c:1\n", "#, c-format\n", "#| msgid \"old\"\n", "#~ msgid \"o\"\n#~ msgstr \"O\"\n", "#\tmsgid\n", "#text\n", "#. a\n#: b\n\n#, c-format, no-wrap\n# d\n", "#. fuzzy\n \n", "#\"quoted\"\n"};
const Strings SEP = {" ", "\t", "  ", " \t", "\t ", "      ", "\v", "\f "};
const Strings TRAIL = {"", " ", "\t", " \t ", "\v"};
const Strings LEAD = {"", " ", "\t", "   ", " \t"};

std::string render(const Doc& d, Lay& l) {
  std::string t;
  auto pick = [&](const Strings& v) { return v[static_cast<size_t>(l.ask(static_cast<int>(v.size())))]; };
  bool bom = l.ask(2); int ends = l.ask(4); int fin = l.ask(4);
  for (size_t i = 0; i < d.e.size(); ++i) {
    if (i) t += pick(GAPS); else { int g = l.ask(4); t += g == 1 ? "\n" : g == 2 ? " \t\n" : g == 3 ? "\n\n\n" : ""; }
    t += pick(COMMENTS);
    for (auto& f : d.e[i].f) {
      t += f.key + pick(SEP);
      t += '"';
      bool cutstart = l.ask(2) && !f.s.atoms.empty();
      if (cutstart) t += "\"" + pick(TRAIL) + "\n" + pick(LEAD) + "\"";
      for (size_t a = 0; a < f.s.atoms.size(); ++a) {
        if (a) { int c = l.ask(3); if (c) { t += "\"" + pick(TRAIL) + "\n" + pick(LEAD) + "\""; if (c == 2) t += "\"\n\""; } }
        t += f.s.atoms[a];
      }
      t += "\"" + pick(TRAIL);
      t += "\n";
    }
  }
  // end of file: one line end, none, blank lines, trailing comment
  if (fin == 1) t.pop_back(); else if (fin == 2) t += "\n \n\n"; else if (fin == 3) t += "\n# the end";
  if (ends) { std::string o; int k = 0; for (char c : t) { if (c == '\n') { if (ends == 1 || (ends == 2 && k % 2 == 0) || (ends == 3 && k % 2 == 1)) o += '\r'; ++k; } o += c; } t = o; }
  return (bom ? "\xef\xbb\xbf" : "") + t;
}
Snap load(const std::string& t) { Dictionary d; parse(t, d); return snap(d); }
const Snap& base(size_t i) {
  static std::vector<std::unique_ptr<Snap>> v(docs().size());
  if (!v[i]) { Plain p; v[i].reset(new Snap(load(render(docs()[i], p)))); }
  return *v[i];
}
void same(Ctx& x, size_t i, const std::string& t) {
  x.note(mc::quote(t, 1200));
  Snap s = load(t); x.step();
  Plain p;
  if (s != base(i)) x.fail("layout of " + docs()[i].name + ":\n" + t + "\nquoted: " + mc::quote(t, 2000) + "\nplain layout:\n" + render(docs()[i], p) + "\n" + diff(s, base(i)));
  x.state(t);
}
void layouts(Ctx& x, int most) { size_t i = static_cast<size_t>(x.choose(static_cast<int>(docs().size()))); Chosen c(x, most); same(x, i, render(docs()[i], c)); }

// long versions of each departure
void ladder(Ctx& x, int top) {
  size_t i = static_cast<size_t>(x.choose(static_cast<int>(docs().size()))); int what = x.choose(9); size_t n = static_cast<size_t>(1) << x.choose(top);
  n += static_cast<size_t>(x.choose(3)) - 1;
  int crlf = x.choose(2);
  const Doc& d = docs()[i]; std::string t;
  auto rep = [&](const std::string& s) { std::string o; for (size_t k = 0; k < n; ++k) o += s; return o; };
  for (size_t k = 0; k < d.e.size(); ++k) {
    if (k) t += what == 0 ? "\n" + rep("\n") : what == 1 ? "\n" + rep(" ") + "\n" : "\n";
    if (what == 2) t += rep("# c\n"); if (what == 3) t += "#. " + rep("x") + "\n"; if (what == 8) t += rep("#~ msgid \"a\"\n#~ msgstr \"b\"\n\n");
    for (auto& f : d.e[k].f) {
      t += f.key + (what == 4 ? " " + rep("\t") : " ") + "\"";
      for (size_t a = 0; a < f.s.atoms.size(); ++a) { if (what == 5) t += "\"\n" + rep("\"\"\n") + "\""; else if (what == 7 && a) t += "\"\n" + rep(" ") + "\""; t += f.s.atoms[a]; }
      t += "\"" + (what == 6 ? rep(" ") : std::string()) + "\n";
    }
  }
  if (crlf) { std::string o; for (char c : t) { if (c == '\n') o += '\r'; o += c; } t = o; }
  Snap s = load(t); x.step(); x.state(t);
  x.note("departure " + std::to_string(what) + " repeated " + std::to_string(n) + " times in " + d.name);
  if (s != base(i)) x.fail("departure " + std::to_string(what) + " repeated " + std::to_string(n) + " times in " + d.name + ":\n" + t.substr(0, 1500) + "\n" + diff(s, base(i)));
}
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e;
  int k = t ? 3 : 2;
  e.push_back({"layouts", "7 documents, all layouts departing from the plain one in at most " + std::to_string(k) + " places", [](Ctx& x) { layouts(x, 99); }}); e.back().deviation_bound = k; e.back().shard_depth = 14; e.back().max_seconds = 3000;
  e.push_back({"layouts-few", "the same in at most " + std::to_string(k + 1) + " places, at most 2 alternatives per place", [](Ctx& x) { layouts(x, 3); }}); e.back().deviation_bound = k + 1; e.back().shard_depth = 14; e.back().max_seconds = 3000;
  int top = t ? 16 : 13;
  e.push_back({"ladder", "9 kinds of departure at every place at once, repeated 2^k-1..2^k+1 times, k < " + std::to_string(top), [top](Ctx& x) { ladder(x, top); }});
  return e;
}
}
mc::Property mc::property = {"C04", "model_checking", "", {"a document loaded in its plain layout is the reference", "line ends are LF, CRLF or alternating within a file"}, all};
