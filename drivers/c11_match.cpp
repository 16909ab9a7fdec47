// C11: all pairs (and triples) of languages.
#include "tg.hpp"
#include "langs.hpp"
#include <unordered_map>
#include <unordered_set>
using namespace tg;
using mc::Ctx;

namespace {
std::vector<Language>& langs() { static std::vector<Language> v = [] { std::vector<Language> r; r.push_back(Language()); for (auto& g : ref::LANGS) r.push_back(Language::from_spec(g.l, g.c, g.m)); return r; }(); return v; }
// the same languages obtained another way
std::vector<Language>& again() { static std::vector<Language> v = [] { std::vector<Language> r; r.push_back(Language::from_env("xx")); for (auto& g : ref::LANGS) r.push_back(Language::from_env(ref::Lang{g.l, g.c, g.m}.str() )); return r; }(); return v; }

void pairs(Ctx& x) {
  int n = static_cast<int>(langs().size());
  int i = x.choose(n), j = x.choose(n);
  Language a = langs()[static_cast<size_t>(i)], b = again()[static_cast<size_t>(j)];
  ref::Lang ra = lang(a), rb = lang(b);
  std::string what = "match of " + mc::quote(ra.str()) + " and " + mc::quote(rb.str());
  x.note(what);
  int s = Language::match(a, b), t = Language::match(b, a), w = ref::match(ra, rb);
  if (s != t) x.fail(what + " is " + std::to_string(s) + ", the other way round " + std::to_string(t));
  bool codes = ra.l == rb.l;
  if ((s == 0) == codes) x.fail(what + " is " + std::to_string(s));
  if (s < 0 || s > 9) x.fail(what + " is " + std::to_string(s));
  if ((s == 9) != (ra == rb)) x.fail(what + " is " + std::to_string(s));
  if (s != w) x.fail(what + " is " + std::to_string(s) + ", expected " + std::to_string(w));
  bool same = ra == rb;
  if ((a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same) x.fail("equality of " + ra.str() + " and " + rb.str());
  if ((a < b) && (b < a)) x.fail("both orders of " + ra.str() + " and " + rb.str());
  if (same && ((a < b) || (b < a))) x.fail("equal languages ordered: " + ra.str());
  if (!same && !((a < b) || (b < a))) x.fail("different languages not ordered: " + ra.str() + " and " + rb.str());
  if (same && Language_hash()(a) != Language_hash()(b)) x.fail("equal languages hash differently: " + ra.str());
  x.step(10); x.state(mc::hash(ra.str() + "|" + rb.str()));
}
// scores of one language against all variants are ranked by agreement
void ranking(Ctx& x) {
  int n = static_cast<int>(langs().size());
  size_t i = static_cast<size_t>(x.choose(n));
  const Language& a = langs()[i];
  for (auto& b : langs()) for (auto& c : langs()) {
    if (Language::match(a, b) == 0 || Language::match(a, c) == 0) continue;
    ref::Lang ra = lang(a), rb = lang(b), rc = lang(c);
    int g = Language::match(a, b) - Language::match(a, c), w = ref::match(ra, rb) - ref::match(ra, rc);
    if ((g > 0) != (w > 0) || (g < 0) != (w < 0)) x.fail("for " + ra.str() + ", " + rb.str() + " and " + rc.str() + " are ranked wrongly");
    x.step();
  }
  x.state(lang(a).str());
}
void transitivity(Ctx& x) {
  int n = static_cast<int>(langs().size());
  size_t i = static_cast<size_t>(x.choose(n)), j = static_cast<size_t>(x.choose(n));
  const Language &a = langs()[i], &b = again()[j];
  if (!(a < b)) { x.trivial(); return; }
  for (auto& c : langs()) { x.step(); if (b < c && !(a < c)) x.fail("order not transitive: " + a.str() + " " + b.str() + " " + c.str()); }
  x.state(mc::hash(a.str() + "<" + b.str()));
}
// containers keyed by languages behave
void containers(Ctx& x) {
  int n = static_cast<int>(langs().size());
  size_t i = static_cast<size_t>(x.choose(n));
  std::set<Language> s; std::unordered_set<Language, Language_hash> h; std::unordered_map<Language, std::string, Language_hash> m;
  for (size_t k = 0; k < langs().size(); ++k) { size_t j = (k * 89 + i) % langs().size(); s.insert(langs()[j]); s.insert(again()[j]); h.insert(again()[j]); h.insert(langs()[j]); m[langs()[j]] += langs()[j].str(); }
  if (s.size() != langs().size() || h.size() != langs().size() || m.size() != langs().size()) x.fail("containers hold " + std::to_string(s.size()) + " / " + std::to_string(h.size()) + " languages instead of " + std::to_string(langs().size()));
  s.erase(again()[i]); h.erase(again()[i]);
  if (s.count(langs()[i]) || h.count(langs()[i]) || m[again()[i]] != langs()[i].str()) x.fail("container lookup of " + langs()[i].str());
  x.step(langs().size()); x.state(langs()[i].str());
}
std::vector<mc::Exploration> all(bool) {
  Logs::silence();
  std::vector<mc::Exploration> e;
  e.push_back({"pairs", "all ordered pairs of the 241 languages and the undefined one, obtained in different ways", pairs}); e.back().shard_depth = 1;
  e.push_back({"ranking", "all triples of languages with one code", ranking}); e.back().shard_depth = 1;
  e.push_back({"transitivity", "all triples", transitivity}); e.back().shard_depth = 1;
  e.push_back({"containers", "set, unordered set and map of all languages", containers}); e.back().shard_depth = 1;
  return e;
}
}
mc::Property mc::property = {"C11", "model_checking", "", {"the golden list of languages in mc/langs.hpp"}, all};
