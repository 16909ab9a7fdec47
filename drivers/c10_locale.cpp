// C10: locale strings, parts, names and aliases of every language against a golden table.
#include "tg.hpp"
#include "langs.hpp"
using namespace tg;
using mc::Ctx;
using ref::LANGS; using ref::NLANGS; using ref::ALIASES; using ref::NALIASES;

namespace {
ref::Lang row(int i) { return ref::Lang{LANGS[i].l, LANGS[i].c, LANGS[i].m}; }
const std::set<std::string>& codes() { static const std::set<std::string> s = [] { std::set<std::string> r; for (auto& g : LANGS) r.insert(g.l); return r; }(); return s; }
const std::map<std::string, std::vector<ref::Lang>>& byCode() { static const std::map<std::string, std::vector<ref::Lang>> m = [] { std::map<std::string, std::vector<ref::Lang>> r; for (int i = 0; i < NLANGS; ++i) r[LANGS[i].l].push_back(row(i)); return r; }(); return m; }

// the language selected for the given parts must be the exact one, or one with the best rank
void judge(Ctx& x, const Language& g, const ref::Lang& want, const std::string& what) {
  x.step();
  ref::Lang got = lang(g);
  auto i = byCode().find(want.l);
  if (i == byCode().end()) { if (g) x.fail(what + " gives " + got.str() + ", expected the undefined language"); return; }
  if (!g) x.fail(what + " gives the undefined language");
  int best = 0; for (auto& r : i->second) { if (r == want) { if (!(got == want)) x.fail(what + " gives " + got.str() + ", expected " + want.str()); return; } best = std::max(best, ref::match(r, want)); }
  if (ref::match(got, want) < best) x.fail(what + " gives " + got.str() + " with rank " + std::to_string(ref::match(got, want)) + ", a variant with rank " + std::to_string(best) + " exists");
}

void products(Ctx& x, bool thorough) {
  static const Strings ls = [] { Strings r(codes().begin(), codes().end()); for (const char* s : {"xx", "", "d", "deu", "DE", "De", "C", "POSIX", "de ", "dé", "zz", "a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}) r.push_back(s); return r; }();
  std::string l = ls[static_cast<size_t>(x.choose(static_cast<int>(ls.size())))];
  std::set<std::string> cset = {"XX", "at", "A", "ZA_X", "LONGCOUNTRYNAME", "US", "DE"}, mset = {"xx", "Latn.x", "a_b", "euro", "@", "latin"};
  auto i = byCode().find(l);
  if (i != byCode().end()) for (auto& r : i->second) { if (!r.c.empty()) cset.insert(r.c); if (!r.m.empty()) { mset.insert(r.m); mset.insert(r.m + "x"); } }
  if (thorough) for (auto& g : LANGS) { if (*g.c) cset.insert(g.c); if (*g.m) mset.insert(g.m); }
  Strings cs(cset.begin(), cset.end()), ms(mset.begin(), mset.end());
  static const Strings sets = {"UTF-8", "", "x_AT", "ISO-8859-1", "_", "a.b", "utf8_DE.x", ".", "iso_8859"};
  int ci = x.choose(static_cast<int>(cs.size()) + 2);
  std::string c = ci < 2 ? "" : cs[static_cast<size_t>(ci - 2)];
  std::string head = l + (ci == 0 ? "" : "_" + c);
  x.note(head + "[.CODESET][@MODIFIER]");
  for (int mi = -2; mi < static_cast<int>(ms.size()); ++mi) {
    std::string m = mi < 0 ? "" : ms[static_cast<size_t>(mi)];
    ref::Lang w{l, c, m};
    for (int si = -1; si < static_cast<int>(sets.size()); ++si) {
      std::string s = head + (si < 0 ? "" : "." + sets[static_cast<size_t>(si)]) + (mi == -2 ? "" : "@" + m);
      judge(x, Language::from_env(s), w, "locale string " + mc::quote(s));
      if (si < 2 && !(c == "NO" && l == "no")) judge(x, Language::from_name(s), w, "name " + mc::quote(s));
    }
    judge(x, Language::from_spec(l, c, m), w, "parts " + mc::quote(l) + " " + mc::quote(c) + " " + mc::quote(m));
    x.state(lang(Language::from_spec(l, c, m)).str() + "|" + w.str());
  }
}
void strings(Ctx& x, const Strings& alpha, int n) {
  int len = x.choose(n + 1); std::string s;
  for (int i = 0; i < len; ++i) s += alpha[static_cast<size_t>(x.choose(static_cast<int>(alpha.size())))];
  x.note(mc::quote(s));
  judge(x, Language::from_env(s), ref::split(s), "locale string " + mc::quote(s));
  x.state(s);
}
void table(Ctx& x) {
  int i = x.choose(NLANGS); const ref::LangRow& g = LANGS[i]; ref::Lang w = row(i);
  x.note(w.str());
  auto is = [&](const Language& l, const std::string& what) {
    if (!l || !(lang(l) == w)) x.fail(what + " gives " + mc::quote(l.str()) + " instead of " + w.str());
    if (l.str() != w.str()) x.fail(w.str() + " prints as " + mc::quote(l.str()));
    if (l.get_name() != g.name) x.fail(w.str() + " has name " + mc::quote(l.get_name()) + " instead of " + mc::quote(g.name));
    if (l.get_localized_name() != (*g.local ? g.local : g.name)) x.fail(w.str() + " has localized name " + mc::quote(l.get_localized_name()));
    x.step(4);
  };
  Language l = Language::from_spec(g.l, g.c, g.m);
  is(l, "from_spec");
  is(Language::from_env(w.str()), "from_env"); is(Language::from_env(l.str()), "reading back");
  is(Language::from_spec(l.get_language(), l.get_country(), l.get_modifier()), "rebuilding from parts");
  if (!(w.l == "no" && w.c == "NO")) is(Language::from_name(w.str()), "from_name");
  for (const char* cs : {".UTF-8", ".x_AT", ".", "._", ".ISO-8859-1"}) { std::string s = w.l + (w.c.empty() ? "" : "_" + w.c) + cs + (w.m.empty() ? "" : "@" + w.m); is(Language::from_env(s), "from_env of " + mc::quote(s)); }
  if (Language::from_env(w.str()) != l || !(Language::from_env(w.str()) == l)) x.fail("two ways to the same language differ: " + w.str());
  Language copy = l, assigned; assigned = l; is(copy, "copy"); is(assigned, "assignment");
  x.state(w.str());
}
void aliases(Ctx& x) {
  int i = x.choose(NALIASES); std::string a = ALIASES[i].name;
  for (char c : a) if (c >= 'A' && c <= 'Z') { x.trivial(); return; }   // not names but locale strings
  ref::Lang w = ref::split(ALIASES[i].env);
  std::vector<size_t> letters; for (size_t k = 0; k < a.size(); ++k) if (a[k] >= 'a' && a[k] <= 'z') letters.push_back(k);
  x.note(a + " = " + w.str());
  for (uint32_t m = 0; m < (1u << letters.size()); ++m) {
    std::string s = a; for (size_t k = 0; k < letters.size(); ++k) if ((m >> k) & 1) s[letters[k]] = static_cast<char>(s[letters[k]] - 32);
    judge(x, Language::from_name(s), w, "name " + mc::quote(s));
  }
  // not quite the alias: unknown
  for (std::string s : {a + "x", a + " ", " " + a, "x" + a, a.substr(0, a.size() - 1), a + "@x", a + "@latin", a + "@", a + ".UTF-8", a + ".", a + "_DE", a + "_", a + a, a + std::string(1, 0), a + "\n", "@" + a, "_" + a}) { bool other = false; for (auto& o : ALIASES) other |= s == o.name; if (!other) judge(x, Language::from_name(s), ref::split(s), "name " + mc::quote(s)); }
  x.state(a);
}
void undefined(Ctx& x) {
  int k = x.choose(7);
  static const char* bad[] = {"", "xx", "_AT", ".UTF-8", "@latin", "DE_de", "deutsche"};
  Language l = k == 0 ? Language() : Language::from_env(bad[k]);
  if (l || !l.get_language().empty() || !l.get_country().empty() || !l.get_modifier().empty() || !l.get_name().empty() || !l.get_localized_name().empty() || !l.str().empty()) x.fail(std::string("undefined language of ") + mc::quote(bad[k]) + " reports " + l.str());
  if (l != Language() || Language::from_name(bad[k]) != Language()) x.fail("undefined languages differ");
  x.step(8); x.state(static_cast<uint64_t>(k));
}
std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  std::vector<mc::Exploration> e;
  e.push_back({"table", "all 241 known languages: parts, printing, reading back, names", table});
  e.push_back({"aliases", "all lower-case aliases in every pattern of letter case, and near misses", aliases});
  e.push_back({"undefined", "ways to the undefined language", undefined});
  e.push_back({"products", std::string("every language code and 13 unknown ones x ") + (t ? "all" : "its own and 7 other") + " countries x 10 codesets x " + (t ? "all" : "its own and 6 other") + " modifiers, as strings, names and parts", [t](Ctx& x) { products(x, t); }});
  e.back().max_seconds = 2500;
  static const Strings chars = {"d", "e", "_", ".", "@", "A", "T", "s", "r"}, toks = {"de", "sr", "ca", "_", ".", "@", "AT", "RS", "ES", "latin", "valencia", "x"};
  int n1 = t ? 8 : 7, n2 = t ? 6 : 5;
  e.push_back({"characters", "all strings of at most " + std::to_string(n1) + " characters from \"de_.@ATsr\"", [n1](Ctx& x) { strings(x, chars, n1); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500;
  e.push_back({"tokens", "all strings of at most " + std::to_string(n2) + " tokens from de sr ca _ . @ AT RS ES latin valencia x", [n2](Ctx& x) { strings(x, toks, n2); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500;
  return e;
}
}
mc::Property mc::property = {"C10", "model_checking", "", {"the golden copy of the language table and alias list in mc/langs.hpp is the documented one", "when several variants share the best rank any of them is accepted"}, all};
