// C09: chains of dictionaries, all combinations of contents, all lookups.
#include "tg.hpp"
#include "langs.hpp"
#include "tinygettext/dictionary_manager.hpp"
using namespace tg;
using mc::Ctx;

namespace {
const std::string CS[] = {"", "c", "d"};
const int COUNTS[] = {1, 0, 2, 5, 21};
struct Cell { const char* name; int kind; Strings v; };    // kind 0 absent, 1 plain, 2 plural
Strings mark(Strings v, const std::string& m) { for (auto& s : v) if (!s.empty()) s += m; return v; }
const std::vector<Cell>& cells() {
  static const std::vector<Cell> c = {{"absent", 0, {}}, {"plain", 1, {"p"}}, {"full", 2, {"f0", "f1", "f2"}}, {"one form", 2, {"g0"}}, {"second empty", 2, {"h0", "", "h2"}}, {"first empty", 2, {"", "i1"}}, {"empty", 1, {""}}, {"no form", 2, {}}};
  return c;
}
void fill(Dictionary& d, ref::Dict& m, Cx c, const Cell& k, const std::string& mk) {
  Strings v = mark(k.v, mk + (c ? "/" + *c : ""));
  if (k.kind == 1) { add(d, c, "a", v[0]); add(m, c, "a", v[0]); }
  if (k.kind == 2) { addp(d, c, "a", "as", v); addp(m, c, "a", v); }
}
const int RULES[] = {-1, 1, 9, 24, 0, 3};
void set_rule(Dictionary& d, ref::Dict& m, int r) { if (r >= 0) { d.set_plural_forms(forms(ref::plural_headers()[static_cast<size_t>(r)])); m.rule = rule(static_cast<size_t>(r)); } }

void compare(Ctx& x, const Dictionary& d, const ref::Dict& m, const std::string& what) {
  static Cx cs[] = {nullptr, &CS[0], &CS[1], &CS[2]};
  uint64_t h = 0;
  for (Cx c : cs) for (const char* id : {"a", "b"}) {
    std::string pl = std::string(id) + "s";
    std::string g = tr(d, c, id), w = m.translate(c, id);
    if (g != w) x.fail(what + "translate " + cx(c) + id + " gives " + mc::quote(g) + ", expected " + mc::quote(w));
    h = mc::hash(g, h + 1);
    for (int n : COUNTS) { g = trp(d, c, id, pl, n); w = m.plural(c, id, pl, n); if (g != w) x.fail(what + "translate_plural " + cx(c) + id + " count " + std::to_string(n) + " gives " + mc::quote(g) + ", expected " + mc::quote(w)); h = mc::hash(g, h + 1); x.step(); }
    x.step();
  }
  x.state(h);
}

void chain(Ctx& x, int n, int ncells, int nctx, int nrules) {
  static Cx cs[] = {nullptr, &CS[1], &CS[0]};
  struct Made { int rule; std::vector<int> cell; }; std::vector<Made> made;
  for (int i = 0; i < n; ++i) {
    Made k; k.rule = RULES[x.choose(nrules)];
    std::string s = "dictionary " + std::to_string(i) + (k.rule < 0 ? std::string(" no rule") : " rule " + ref::plural_headers()[static_cast<size_t>(k.rule)]);
    for (int c = 0; c < nctx; ++c) { k.cell.push_back(x.choose(ncells)); s += "; " + (cs[c] ? "ctxt " + mc::quote(*cs[c]) : std::string("no ctxt")) + ": " + cells()[static_cast<size_t>(k.cell.back())].name; }
    made.push_back(k); x.note(s);
  }
  static const char* mode[] = {"filled, then linked from the top", "filled, then linked from the bottom", "linked, then filled"};
  for (int o = 0; o < 3; ++o) { // the order of filling and linking makes no difference
    std::vector<std::unique_ptr<Dictionary>> d; std::vector<ref::Dict> m(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) d.emplace_back(new Dictionary());
    auto link = [&](int i) { if (i + 1 < n) { d[static_cast<size_t>(i)]->addFallback(d[static_cast<size_t>(i + 1)].get()); m[static_cast<size_t>(i)].fallback = &m[static_cast<size_t>(i + 1)]; } };
    if (o == 2) for (int i = 0; i < n; ++i) link(i);
    for (int i = 0; i < n; ++i) { size_t k = static_cast<size_t>(i); set_rule(*d[k], m[k], made[k].rule); for (int c = 0; c < nctx; ++c) fill(*d[k], m[k], cs[c], cells()[static_cast<size_t>(made[k].cell[static_cast<size_t>(c)])], "@" + std::to_string(i)); }
    if (o == 0) for (int i = 0; i < n; ++i) link(i);
    if (o == 1) for (int i = n - 1; i >= 0; --i) link(i);
    for (int i = 0; i < n; ++i) compare(x, *d[static_cast<size_t>(i)], m[static_cast<size_t>(i)], std::string(mode[o]) + ", dictionary " + std::to_string(i) + ": ");
    if (n > 1) { // later additions to the fallback are seen
      add(*d[1], nullptr, "b", "late"); add(m[1], nullptr, "b", "late"); add(*d[1], &CS[1], "b", "latec"); add(m[1], &CS[1], "b", "latec");
      compare(x, *d[0], m[0], std::string(mode[o]) + ", after an addition to the fallback: ");
    }
  }
}

// the same through the manager and PO files
std::string po(const std::vector<int>& cell, const std::vector<Cx>& cs, int r, const std::string& mk, Dictionary*, ref::Dict& m) {
  std::string o = header("UTF-8", r < 0 ? "" : ref::plural_headers()[static_cast<size_t>(r)]);
  if (r >= 0) m.rule = rule(static_cast<size_t>(r));
  for (size_t k = 0; k < cs.size(); ++k) {
    const Cell& c = cells()[static_cast<size_t>(cell[k])]; if (!c.kind) continue;
    Strings v = mark(c.v, mk + (cs[k] ? "/" + *cs[k] : ""));
    o += "\n"; if (cs[k]) o += "msgctxt " + q(*cs[k]) + "\n"; o += "msgid \"a\"\n";
    if (c.kind == 1) { o += "msgstr " + q(v[0]) + "\n"; if (!v[0].empty()) add(m, cs[k], "a", v[0]); }
    else { o += "msgid_plural \"as\"\n"; bool any = false; for (size_t i = 0; i < v.size(); ++i) { o += "msgstr[" + std::to_string(i) + "] " + q(v[i]) + "\n"; any |= !v[i].empty(); } if (any) addp(m, cs[k], "a", v); }
  }
  return o;
}
void manager(Ctx& x, int ncells) {
  static const std::vector<Cx> cs = {nullptr, &CS[1]};
  auto f = std::make_shared<Files>(); ref::Dict reg, base;
  static const int rr[] = {1, 9, -1};
  std::vector<int> a, b;
  for (int k = 0; k < 2; ++k) a.push_back(x.choose(ncells));
  for (int k = 0; k < 2; ++k) b.push_back(x.choose(ncells));
  int ra = rr[x.choose(3)], rb = rr[x.choose(3)];
  int dirs = x.choose(3);
  std::string A = po(a, cs, ra, "@AT", nullptr, reg), B = po(b, cs, rb, "@de", nullptr, base);
  if (dirs == 0) f->dirs["p"] = {{"de.po", B}, {"de_AT.po", A}};
  else if (dirs == 1) { f->dirs["p"] = {{"de_AT.po", A}, {"fr.po", ""}}; f->dirs["q"] = {{"de.po", B}}; }
  else { f->dirs["p"] = {{"de.po", B}}; f->dirs["q"] = {{"de_AT.po", A}}; }
  if (dirs) {
    // every directory serves its best file to either language: merge in the documented order (earlier directory wins)
    ref::Dict r2, b2; std::vector<int> none;
    Dictionary dummy;
    auto merge = [&](ref::Dict& to, const ref::Dict& low, const ref::Dict& high) {
      const ref::Dict* order[] = {&low, &high};
      for (auto* s : order) { if (!to.rule) to.rule = s->rule; for (auto& e : s->plain) { if (e.second.size() == 1) to.add(e.first, e.second[0]); else to.add(e.first, e.second); } for (auto& c : s->ctxt) for (auto& e : c.second) if (e.second.size() == 1) to.add_c(c.first, e.first, e.second[0]); else to.add_c(c.first, e.first, e.second); }
    };
    // mixed plain/plural redefinition is not what is decided here
    for (size_t k = 0; k < 2; ++k) { int ka = cells()[static_cast<size_t>(a[k])].kind, kb = cells()[static_cast<size_t>(b[k])].kind; if ((ka && kb && ka != kb) || a[k] == 3 || b[k] == 3) { x.trivial(); return; } }
    if (dirs == 1) { merge(r2, base, reg); merge(b2, base, reg); } else { merge(r2, reg, base); merge(b2, reg, base); }
    reg = r2; base = b2;
  }
  x.note("de_AT.po:\n" + A + "\nde.po:\n" + B);
  reg.fallback = &base;
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f)));
  dm.add_directory("p"); if (dirs) dm.add_directory("q");
  Language at = Language::from_spec("de", "AT"), de = Language::from_spec("de");
  int order = x.choose(3);
  if (order == 1) { compare(x, dm.get_dictionary(de), base, "de: "); }
  if (order == 2) { dm.set_language(at); compare(x, dm.get_dictionary(), reg, "current de_AT: "); }
  compare(x, dm.get_dictionary(at), reg, "de_AT: ");
  compare(x, dm.get_dictionary(de), base, "de: ");
}
// every regional language of the table falls back to its base language
void regions(Ctx& x) {
  static const std::vector<Language> langs = [] { std::vector<Language> r; for (auto& g : ref::LANGS) if (*g.c) r.push_back(Language::from_spec(g.l, g.c, g.m)); return r; }();
  Language l = langs[static_cast<size_t>(x.choose(static_cast<int>(langs.size())))];
  Language base = Language::from_spec(l.get_language());
  x.note(l.str() + " -> " + base.str());
  auto f = std::make_shared<Files>();
  auto e = [](const char* id, const std::string& s) { return std::string("\nmsgid \"") + id + "\"\nmsgstr \"" + s + "\"\n\nmsgctxt \"c\"\nmsgid \"" + id + "\"\nmsgstr \"" + s + "-c\"\n\nmsgctxt \"c\"\nmsgid \"" + id + "n\"\nmsgid_plural \"" + id + "ns\"\nmsgstr[0] \"" + s + "-0\"\nmsgstr[1] \"" + s + "-1\"\n"; };
  std::string h = header("UTF-8", "nplurals=2; plural=(n != 1);");
  f->dirs["p"] = {{l.str() + ".po", h + e("r", "R") + e("x", "XR")}, {base.str() + ".po", h + e("b", "B") + e("x", "XB")}};
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(f))); dm.add_directory("p");
  Dictionary& d = dm.get_dictionary(l);
  auto want = [&](const std::string& g, const std::string& w, const char* what) { x.step(); if (g != w) x.fail(l.str() + " " + what + " gives " + mc::quote(g) + ", expected " + mc::quote(w)); };
  want(d.translate("r"), "R", "own message"); want(d.translate("x"), "XR", "message of both"); want(d.translate("b"), "B", "message of the base language");
  want(d.translate_ctxt("c", "b"), "B-c", "contextual message of the base language"); want(d.translate_ctxt("c", "x"), "XR-c", "contextual message of both"); want(d.translate_ctxt("e", "b"), "b", "message of an unknown context");
  want(d.translate_ctxt_plural("c", "bn", "bns", 1), "B-0", "contextual plural of the base language"); want(d.translate_ctxt_plural("c", "bn", "bns", 2), "B-1", "contextual plural of the base language");
  Dictionary& b = dm.get_dictionary(base);
  want(b.translate("r"), "r", "base language asked for a regional message"); want(b.translate("b"), "B", "base message"); want(b.translate("x"), "XB", "base message");
  x.state(l.str());
}

std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  std::vector<mc::Exploration> e;
  int nc = t ? 8 : 7, nr = t ? 5 : 3;
  e.push_back({"two", "2 dictionaries x 2 contexts x " + std::to_string(nc) + " contents each x " + std::to_string(nr) + " rules each, every lookup in 4 contexts", [=](Ctx& x) { chain(x, 2, nc, 2, nr); }}); e.back().shard_depth = 4; e.back().max_seconds = 2000;
  e.push_back({"two-3ctx", "2 dictionaries x contexts none, \"c\", \"\" x 4 contents", [=](Ctx& x) { chain(x, 2, t ? 6 : 4, 3, 2); }}); e.back().shard_depth = 4; e.back().max_seconds = 2000;
  e.push_back({"three", "3 dictionaries in a chain x 2 contexts x contents x rules", [=](Ctx& x) { chain(x, 3, t ? 5 : 4, 2, t ? 3 : 2); }}); e.back().shard_depth = 4; e.back().max_seconds = 2000;
  if (t) { e.push_back({"four", "4 dictionaries in a chain x no context x 8 contents x 2 rules", [=](Ctx& x) { chain(x, 4, 8, 1, 2); }}); e.back().shard_depth = 4; e.back().max_seconds = 2000; }
  e.push_back({"manager", "de_AT.po and de.po in one or two directories x contents x rules x request orders", [=](Ctx& x) { manager(x, t ? 7 : 5); }}); e.back().shard_depth = 3; e.back().max_seconds = 2000;
  e.push_back({"regions", "every regional language of the table", regions});
  return e;
}
}
mc::Property mc::property = {"C09", "model_checking", "", {"the chained catalogue in mc/ref.hpp states the intended meaning of fallback lookups", "plural rules themselves are decided by C07"}, all};
