// C08: every dictionary operation sequence up to a depth against a plain catalogue.
#include "tg.hpp"
using namespace tg;
using mc::Ctx;

namespace {
const std::string CS[] = {"", "c", "d"};
Cx ctxs[] = {nullptr, &CS[0], &CS[1], &CS[2]};
const std::string IDS[] = {"a", "b", "z", ""};

struct Both { ref::Dict keep, reset; bool k = true, r = true; Both() { reset.reset_tail = true; } };

// compares one lookup with both admissible catalogues
void expect(Ctx& x, Both& m, const std::string& got, const std::string& wk, const std::string& wr, const std::string& what) {
  if (got != wk) m.k = false;
  if (got != wr) m.r = false;
  if (!m.k && !m.r) x.fail(what + " gives " + mc::quote(got) + ", expected " + mc::quote(wk) + (wr != wk ? " or " + mc::quote(wr) : ""));
}
void lookups(Ctx& x, const Dictionary& d, Both& m, const int* counts, int nc) {
  for (Cx c : ctxs) for (auto& id : IDS) {
    expect(x, m, tr(d, c, id), m.keep.translate(c, id), m.reset.translate(c, id), "translate " + cx(c) + mc::quote(id));
    x.step();
    for (int i = 0; i < nc; ++i) {
      std::string pl = id.empty() ? "s" : id + "s";
      expect(x, m, trp(d, c, id, pl, counts[i]), m.keep.plural(c, id, pl, counts[i]), m.reset.plural(c, id, pl, counts[i]), "translate_plural " + cx(c) + mc::quote(id) + " count " + std::to_string(counts[i]));
      x.step();
    }
  }
}
void listing(Ctx& x, Dictionary& d, Both& m) {
  Snap s = lean(snap(d)), k = lean(snap_of(m.keep)), r = lean(snap_of(m.reset));
  s.nplural = k.nplural = r.nplural = 0; s.sig.clear(); k.sig.clear(); r.sig.clear();
  if (s.repeats) x.fail("a listing visits an entry twice\n" + show(s));
  if (s != k) m.k = false;
  if (s != r) m.r = false;
  if (!m.k && !m.r) x.fail("listing differs\n" + diff(s, k));
  x.state(s.hash());
}

struct Op { int kind; Cx c; int id; Strings v; };   // 0 plain, 1 plural, 2 rule, 3 all lookups and listings
std::vector<Op> alphabet(bool small) {
  std::vector<Op> o;
  std::vector<Cx> cs = {nullptr, &CS[0], &CS[1]};
  for (Cx c : cs) for (int id = 0; id < (small ? 1 : 2); ++id) {
    if (id == 1 && c == &CS[0]) continue;
    o.push_back({0, c, id, {"x"}});
    if (id == 0) { o.push_back({0, c, id, {"y"}}); o.push_back({0, c, id, {""}}); }
    o.push_back({1, c, id, {"p", "q"}});
    if (id == 0) { o.push_back({1, c, id, {"r", "", "s"}}); if (!small) { o.push_back({1, c, id, {"", "t"}}); o.push_back({1, c, id, {}}); o.push_back({1, c, id, {"x"}}); } }
  }
  for (const char* r : {"0", "1", "9", "24", "none"}) o.push_back({2, nullptr, 0, {r}});
  o.push_back({3, nullptr, 0, {}});
  return o;
}
const int COUNTS[] = {1, 0, 2, 5, 11, 22};

void apply(Ctx& x, const Op& o, Dictionary& d, Both& m) {
  switch (o.kind) {
    case 0: x.note("add " + cx(o.c) + IDS[o.id] + " -> " + mc::quote(o.v[0])); add(d, o.c, IDS[o.id], o.v[0]); add(m.keep, o.c, IDS[o.id], o.v[0]); add(m.reset, o.c, IDS[o.id], o.v[0]); break;
    case 1: x.note("add plural " + cx(o.c) + IDS[o.id] + " -> " + show(o.v)); addp(d, o.c, IDS[o.id], IDS[o.id] + "s", o.v); addp(m.keep, o.c, IDS[o.id], o.v); addp(m.reset, o.c, IDS[o.id], o.v); break;
    case 2: {
      x.note("set_plural_forms " + o.v[0]);
      if (o.v[0] == "none") { d.set_plural_forms(PluralForms()); m.keep.rule = m.reset.rule = nullptr; }
      else { size_t i = static_cast<size_t>(atoi(o.v[0].c_str())); d.set_plural_forms(forms(ref::plural_headers()[i])); m.keep.rule = m.reset.rule = rule(i); }
      break; }
    default: x.note("look everything up"); lookups(x, d, m, COUNTS, 3); listing(x, d, m); break;
  }
  x.step();
}

void sequences(Ctx& x, const std::vector<Op>& ops, int depth) {
  Dictionary d; Both m;
  int len = 1 + x.choose(depth);
  for (int i = 0; i < len; ++i) apply(x, ops[static_cast<size_t>(x.choose(static_cast<int>(ops.size())))], d, m);
  lookups(x, d, m, COUNTS, 6);
  listing(x, d, m);
  lookups(x, d, m, COUNTS, 1);
}

// every rule, every vector of at most 7 forms with every pattern of empty ones, every count
void forms_by_count(Ctx& x, bool thorough) {
  size_t nr = ref::plural_headers().size();
  int r = x.choose(static_cast<int>(nr) + 1);
  int size = x.choose(thorough ? 10 : 8);
  int kind = x.choose(2);
  Cx c = kind ? &CS[1] : nullptr;
  for (int mask = 0; mask < (1 << size); ++mask) {
    Dictionary d; Both m;
    if (r) { d.set_plural_forms(forms(ref::plural_headers()[static_cast<size_t>(r - 1)])); m.keep.rule = m.reset.rule = rule(static_cast<size_t>(r - 1)); }
    Strings v; for (int i = 0; i < size; ++i) v.push_back((mask >> i) & 1 ? "" : "f" + std::to_string(i));
    x.note((r ? ref::plural_headers()[static_cast<size_t>(r - 1)] : std::string("no rule")) + " forms " + show(v));
    addp(d, c, "a", "as", v); addp(m.keep, c, "a", v); addp(m.reset, c, "a", v);
    for (int n : sig_counts()) { expect(x, m, trp(d, c, "a", "as", n), m.keep.plural(c, "a", "as", n), m.reset.plural(c, "a", "as", n), "plural " + cx(c) + "count " + std::to_string(n) + " of " + show(v)); x.step(); }
    expect(x, m, tr(d, c, "a"), m.keep.translate(c, "a"), m.reset.translate(c, "a"), "translate " + cx(c) + "of " + show(v));
    // another context, or none, must not see it
    Cx o = kind ? nullptr : &CS[1];
    for (int n : {0, 1, 2, 5}) expect(x, m, trp(d, o, "a", "as", n), n == 1 ? "a" : "as", n == 1 ? "a" : "as", "plural of a message of another context");
    for (int n : {-1, -2, -101, INT_MIN}) { std::string g = trp(d, c, "a", "as", n); if (g.empty()) x.fail("empty string for count " + std::to_string(n)); bool ok = g == "as"; for (auto& f : v) ok |= g == f; if (!ok) x.fail("count " + std::to_string(n) + " gives " + mc::quote(g)); x.step(); }
    x.state(mc::hash(show(v)) + static_cast<uint64_t>(r));
  }
}

// keys that could be confused with each other
void keys(Ctx& x, int n) {
  static const Strings cs = {"", "a", "ab", std::string("a\4b"), std::string("\4"), std::string("a\0", 2), "a b", "|"};
  static const Strings ids = {"a", "b", "ab", std::string("a\4b"), std::string("\4b"), std::string("b\0", 2), std::string("a\0b", 3), "a|b", "A", std::string("\xe4"), "a ", ""};
  std::vector<std::pair<Cx, const std::string*>> k;
  for (auto& i : ids) k.push_back({nullptr, &i});
  for (auto& c : cs) for (auto& i : ids) k.push_back({&c, &i});
  Dictionary d; Both m; std::vector<size_t> used;
  for (int j = 0; j < n; ++j) {
    size_t a = static_cast<size_t>(x.choose(static_cast<int>(k.size()))); used.push_back(a);
    std::string v = "v" + std::to_string(j);
    x.note("add " + cx(k[a].first) + mc::quote(*k[a].second));
    add(d, k[a].first, *k[a].second, v); add(m.keep, k[a].first, *k[a].second, v); add(m.reset, k[a].first, *k[a].second, v); x.step();
  }
  for (auto& e : k) { expect(x, m, tr(d, e.first, *e.second), m.keep.translate(e.first, *e.second), m.reset.translate(e.first, *e.second), "translate " + cx(e.first) + mc::quote(*e.second)); x.step(); }
  listing(x, d, m);
}

// growth: n entries spread over contexts, redefined and looked up
void growth(Ctx& x, int maxn) {
  int n = x.choose(maxn + 1), how = x.choose(4), redefine = x.choose(3);
  Dictionary d; Both m;
  x.note("entries " + std::to_string(n) + " layout " + std::to_string(how) + " redefine " + std::to_string(redefine));
  static const Strings many = [] { Strings r; for (int i = 0; i < 600; ++i) r.push_back("c" + std::to_string(i)); return r; }();
  auto cof = [&](int i) -> Cx { return how == 0 ? nullptr : how == 1 ? &CS[1] : how == 2 ? &many[static_cast<size_t>(i) % 600] : (i % 3 ? &many[static_cast<size_t>(i % 3)] : nullptr); };
  for (int round = 0; round < 1 + (redefine > 0); ++round) for (int i = 0; i < n; ++i) {
    int j = redefine == 2 && round ? n - 1 - i : i;
    std::string id = "id" + std::to_string(j), v = (round ? "w" : "v") + std::to_string(j);
    if (j % 5 == 4) { Strings f = {v, v + "s"}; addp(d, cof(j), id, id + "s", f); addp(m.keep, cof(j), id, f); addp(m.reset, cof(j), id, f); }
    else { add(d, cof(j), id, v); add(m.keep, cof(j), id, v); add(m.reset, cof(j), id, v); }
    x.step();
  }
  for (int i = 0; i < n; ++i) { std::string id = "id" + std::to_string(i); expect(x, m, tr(d, cof(i), id), m.keep.translate(cof(i), id), m.reset.translate(cof(i), id), "translate " + id); }
  listing(x, d, m);
  // a stateful functor comes back from the listing
  struct Count { int k = 0; void operator()(const std::string&, const Strings&) { ++k; } void operator()(const std::string&, const std::string&, const Strings&) { ++k; } };
  int total = d.foreach(Count()).k + d.foreach_ctxt(Count()).k;
  if (total != n) x.fail("listings visit " + std::to_string(total) + " entries of " + std::to_string(n));
}

std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  static const std::vector<Op> full = alphabet(false), small = alphabet(true);
  std::vector<mc::Exploration> e;
  int d = t ? 4 : 3;
  e.push_back({"sequences", "all sequences of 1.." + std::to_string(d) + " operations from " + std::to_string(full.size()) + " (additions in 3 contexts, 5 rules, lookups), all lookups after the last", [d](Ctx& x) { sequences(x, full, d); }});
  e.back().shard_depth = 3; e.back().max_seconds = 3000;
  int ds = t ? 5 : 4;
  e.push_back({"deeper", "all sequences of 1.." + std::to_string(ds) + " operations from " + std::to_string(small.size()), [ds](Ctx& x) { sequences(x, small, ds); }});
  e.back().shard_depth = 3; e.back().max_seconds = 3000;
  e.push_back({"forms-by-count", std::to_string(ref::plural_headers().size()) + " rules and none x vectors of 0.." + std::string(t ? "9" : "7") + " forms, every pattern of empty forms x 135 counts >= 0 and 4 negative", [t](Ctx& x) { forms_by_count(x, t); }});
  int kn = t ? 3 : 2;
  e.push_back({"keys", "all " + std::to_string(kn) + "-tuples of 108 (context, source) keys that could collide, all keys looked up", [kn](Ctx& x) { keys(x, kn); }});
  int gn = t ? 1200 : 200;
  e.push_back({"growth", "0.." + std::to_string(gn) + " entries x 4 context layouts x 3 redefinition patterns", [gn](Ctx& x) { growth(x, gn); }});
  return e;
}
}
mc::Property mc::property = {"C08", "model_checking", "", {"the catalogue in mc/ref.hpp states the intended meaning of lookups", "whether a plain redefinition of a plural message drops its other forms is left open; either is accepted if used consistently"}, all};
