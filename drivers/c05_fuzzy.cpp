// C05: which entries are used depending on their flag comments and the manager's setting.
#include "tg.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include <deque>
using namespace tg;
using mc::Ctx;

namespace {
struct CL { const char* text; char kind; };          // F fuzzy flag comment, C other comment, B blank
const CL LINES[] = {{"#, fuzzy", 'F'}, {"", 'B'}, {"# fuzzy", 'C'}, {"#. fuzzy", 'C'}, {"#: fuzzy.c:3", 'C'}, {"#, c-format", 'C'}, {"#, c-format, fuzzy", 'F'}, {"#, fuzzy, no-wrap", 'F'}, {"#,fuzzy", 'F'}, {"#| msgid \"fuzzy\"", 'C'}, {"#~ , fuzzy", 'C'}, {" \t", 'B'}, {"#", 'C'}, {"# , fuzzy", 'C'}, {"#,", 'C'}, {"#. , fuzzy", 'C'}, {"#:, fuzzy", 'C'}, {"#~, fuzzy", 'C'}};
const int NL = sizeof LINES / sizeof *LINES;
struct Block { std::string text; bool fuzzy = false; };
void line(Block& b, int i) { b.text += std::string(LINES[i].text) + "\n"; if (LINES[i].kind == 'B') b.fuzzy = false; else if (LINES[i].kind == 'F') b.fuzzy = true; }
Block block(Ctx& x, int most, int nl = NL) { Block b; int n = x.choose(most + 1); for (int i = 0; i < n; ++i) line(b, x.choose(nl)); return b; }

struct E { std::string text; std::function<void(ref::Dict&)> apply; };
// kinds of entry; n distinguishes them, the flag word also occurs inside strings
E entry(int kind, const std::string& n, bool latin1) {
  std::string u = latin1 ? "\xe9" : "\xc3\xa9", v = "\xc3\xa9";
  switch (kind) {
    case 0: return {"msgid \"a\"\nmsgstr \"A" + n + u + "\"\n", [=](ref::Dict& m) { m.add("a", "A" + n + v); }};
    case 1: return {"msgctxt \"fuzzy\"\nmsgid \"a\"\nmsgstr \"X" + n + "\"\n", [=](ref::Dict& m) { m.add_c("fuzzy", "a", "X" + n); }};
    case 2: return {"msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"P" + n + u + "\"\nmsgstr[1] \"Q" + n + "\"\n", [=](ref::Dict& m) { m.add("p", Strings{"P" + n + v, "Q" + n}); }};
    case 3: return {"msgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"R" + n + "\"\nmsgstr[1] \"S" + n + "\"\n", [=](ref::Dict& m) { m.add_c("c", "p", Strings{"R" + n, "S" + n}); }};
    case 5: return {"msgid \"s\"\nmsgid_plural \"s\"\nmsgstr[0] \"s\"\nmsgstr[1] \"T" + n + "\"\n", [=](ref::Dict& m) { m.add("s", Strings{"s", "T" + n}); }};
    case 6: return {"msgctxt \"s\"\nmsgid \"s\"\nmsgid_plural \"s\"\nmsgstr[0] \"U" + n + "\"\nmsgstr[1] \"s\"\n", [=](ref::Dict& m) { m.add_c("s", "s", Strings{"U" + n, "s"}); }};
    case 7: return {"msgctxt \"\"\nmsgid \"s\"\nmsgstr \"s\"\n", [=](ref::Dict& m) { m.add_c("", "s", "s"); }};
    default: return {"msgid \"\"\n\"#, fuzzy\\n\"\n\"b\"\nmsgstr \"\"\n\"#, fuzzy\"\n\"" + n + "\"\n", [=](ref::Dict& m) { m.add("#, fuzzy\nb", "#, fuzzy" + n); }};
  }
}
const int NK = 9;
struct File { std::string text; ref::Dict on, off; };
void put(File& f, const Block& b, const E& e) { f.text += b.text + e.text + "\n"; e.apply(f.on); if (!b.fuzzy) e.apply(f.off); }
void head(File& f, const Block& b, bool latin1) { f.text += b.text + header(latin1 ? "ISO-8859-1" : "UTF-8", "nplurals=2; plural=(n > 1);") + "\n"; f.on.rule = f.off.rule = rule(3); }

std::shared_ptr<Files> files() { static std::shared_ptr<Files> f = std::make_shared<Files>(); return f; }
void decide(Ctx& x, const File& f) {
  auto fs = files(); fs->dirs["p"] = {{"de.po", f.text}};
  x.note(f.text);
  for (int off = 0; off < 2; ++off) {
    DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(fs))); dm.add_directory("p");
    if (off) dm.set_use_fuzzy(false);
    if (dm.get_use_fuzzy() != !off) x.fail("get_use_fuzzy does not return the setting");
    Snap s = snap(dm.get_dictionary(Language::from_spec("de"))), w = snap_of(off ? f.off : f.on); x.step();
    if (s != w) x.fail(std::string("fuzzy entries ") + (off ? "off" : "on") + ", file:\n" + f.text + diff(s, w));
    x.state(s.hash());
  }
}
void one(Ctx& x, int most) {
  int k = x.choose(NK); Block b = block(x, most); File f; head(f, Block(), false);
  put(f, b, entry(k, "1", false)); put(f, Block(), entry((k + 1) % NK, "2", false));
  decide(x, f);
}
void two(Ctx& x, int a, int b, int nl) {
  int k = x.choose(NK), same = x.choose(2); Block p = block(x, a, nl), q2 = block(x, b, nl); File f; head(f, Block(), false);
  put(f, p, entry(k, "1", false)); put(f, q2, entry(same ? k : (k + 2) % NK, "2", false)); put(f, Block(), entry((k + 1) % NK, "3", false));
  decide(x, f);
}
// comments before the header
void heads(Ctx& x, int most) {
  bool l1 = x.choose(2), last = x.choose(2); int k = x.choose(NK); Block hb = block(x, most), b = block(x, 1); File f;
  if (last && !l1) put(f, Block(), entry(k == 2 || k == 3 ? 0 : k, "0", false));
  head(f, hb, l1); put(f, b, entry(k, "1", l1)); put(f, Block(), entry((k + 1) % NK, "2", l1));
  decide(x, f);
}

// ---- histories of settings and requests ----
struct Conf { std::deque<int> dirs; bool fuzzy = true; int lang = -1; };
const char* LANG[] = {"de", "de_AT"};
struct World { std::shared_ptr<Files> f = std::make_shared<Files>(); ref::Dict d[2][2][2]; };   // directory, language, fuzzy
World& world() {
  static World* w = [] {
    auto* r = new World; 
    for (int d = 0; d < 2; ++d) for (int l = 0; l < 2; ++l) {
      File f; Block no, fz; fz.text = "#, fuzzy\n"; fz.fuzzy = true; std::string n = std::to_string(d) + LANG[l];
      head(f, d ? fz : no, l); 
      put(f, d == 0 && l == 0 ? fz : no, entry(0, n, l)); put(f, d == 1 ? fz : no, entry(1, n, l)); put(f, l ? fz : no, entry(2, n, l)); put(f, (d ^ l) ? no : fz, entry(3, n, l)); if (d) put(f, fz, entry(4, n, l));
      r->f->dirs[d ? "q" : "p"].push_back({std::string(LANG[l]) + ".po", f.text}); r->d[d][l][1] = f.on; r->d[d][l][0] = f.off;
    }
    return r; }();
  return *w;
}
ref::Dict want(const Conf& c, int l) {                 // directories of lower priority first
  ref::Dict m; World& w = world();
  for (auto i = c.dirs.rbegin(); i != c.dirs.rend(); ++i) { auto& s = w.d[*i][l][c.fuzzy]; for (auto& e : s.plain) m.plain[e.first] = e.second; for (auto& k : s.ctxt) for (auto& e : k.second) m.ctxt[k.first][e.first] = e.second; if (!m.rule) m.rule = s.rule; }
  return m;
}
void history(Ctx& x, int depth) {
  World& w = world(); Conf c; std::string log;
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(w.f)));
  c.dirs.push_back(0); dm.add_directory("p");
  auto get = [&](Dictionary& d, int l) {
    ref::Dict r = want(c, l), base = want(c, 0); r.fallback = l == 1 ? &base : nullptr; x.step();
    Snap s = snap(d), e = snap_of(r);
    if (s != e) x.fail("after " + log + "(fuzzy entries " + (c.fuzzy ? "on" : "off") + ")\n" + diff(s, e));
    struct { Cx c; std::string id, pl; int n; } qs[] = {{nullptr, "a", "", 0}, {nullptr, "#, fuzzy\nb", "", 0}, {nullptr, "p", "ps", 1}, {nullptr, "p", "ps", 2}};
    for (auto& q2 : qs) { std::string g = q2.pl.empty() ? tr(d, q2.c, q2.id) : trp(d, q2.c, q2.id, q2.pl, q2.n), h = q2.pl.empty() ? r.translate(q2.c, q2.id) : r.plural(q2.c, q2.id, q2.pl, q2.n); if (g != h) x.fail("after " + log + ": " + mc::quote(q2.id) + " gives " + mc::quote(g) + ", expected " + mc::quote(h)); }
    x.state(s.hash() + static_cast<uint64_t>(l));
  };
  for (int i = 0; i < depth; ++i) switch (x.choose(9)) {
    case 0: log += "set_use_fuzzy(false) "; dm.set_use_fuzzy(false); c.fuzzy = false; break;
    case 1: log += "set_use_fuzzy(true) "; dm.set_use_fuzzy(true); c.fuzzy = true; break;
    case 2: log += "get(de) "; get(dm.get_dictionary(Language::from_spec("de")), 0); break;
    case 3: log += "get(de_AT) "; get(dm.get_dictionary(Language::from_spec("de", "AT")), 1); break;
    case 4: log += "set_language(de) "; dm.set_language(Language::from_spec("de")); c.lang = 0; break;
    case 5: log += "set_language(de_AT) "; dm.set_language(Language::from_spec("de", "AT")); c.lang = 1; break;
    case 6: log += "get() "; if (c.lang >= 0) get(dm.get_dictionary(), c.lang); break;
    case 7: log += "add(q) "; dm.add_directory("q"); if (c.dirs.size() < 2) c.dirs.push_back(1); break;
    default: log += "set_charset(UTF-8) "; dm.set_charset("UTF-8"); break;
  }
  x.note(log);
  if (dm.get_use_fuzzy() != c.fuzzy) x.fail("after " + log + "get_use_fuzzy does not return the setting");
  for (int l = 0; l < 2; ++l) { log += std::string("get(") + LANG[l] + ") "; get(dm.get_dictionary(Language::from_env(LANG[l])), l); }
  if (c.lang >= 0) { log += "get() "; get(dm.get_dictionary(), c.lang); }
}
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e;
  int m = t ? 4 : 3;
  e.push_back({"one-block", "all blocks of at most " + std::to_string(m) + " of 18 comment or blank lines before one of 9 kinds of entry, fuzzy entries on and off", [m](Ctx& x) { one(x, m); }}); e.back().shard_depth = 3;
  e.push_back({"two-blocks", "all blocks of at most " + std::string(t ? "2 and 3" : "2 and 2") + " of " + std::to_string(t ? NL : 12) + " lines before two entries, of the same or of different messages", [t](Ctx& x) { two(x, 2, t ? 3 : 2, t ? NL : 12); }}); e.back().shard_depth = 5; e.back().max_seconds = 1500;
  e.push_back({"header", "all blocks of at most 2 lines before the header, at most 1 before the next entry, 2 charsets", [](Ctx& x) { heads(x, 2); }}); e.back().shard_depth = 4;
  int d = t ? 7 : 5;
  e.push_back({"histories", "all sequences of " + std::to_string(d) + " of 9 operations (setting, language, directory, charset, requests) followed by all requests", [d](Ctx& x) { history(x, d); }}); e.back().shard_depth = 4; e.back().max_seconds = 2500;
  return e;
}
}
mc::Property mc::property = {"C05", "model_checking", "", {"a flag comment counts when only comment lines stand between it and the entry", "flag words that merely contain the word fuzzy are not judged"}, all};
