// C01: what a PO text denotes. Texts are generated together with the catalogue they denote.
#include <algorithm>
#include <set>
#include "tg.hpp"
using namespace tg;
using mc::Ctx;

namespace {
struct Atom { std::string text, value; };
const std::vector<Atom>& atoms() {
  static const std::vector<Atom> v = [] {
    std::vector<Atom> r;
    for (int c = 0; c < 256; ++c) { if (c == '\n' || c == '"' || c == '\\') continue; std::string s(1, static_cast<char>(c)); r.push_back({s, s}); }
    const char* e = "abvntr\"\\"; const char* d = "\a\b\v\n\t\r\"\\";
    for (int i = 0; e[i]; ++i) r.push_back({std::string("\\") + e[i], std::string(1, d[i])});
    for (int c = 0; c < 256; ++c) { if (c == '\n' || strchr("abvntr\"\\", c)) { if (c) continue; } std::string s = std::string("\\") + static_cast<char>(c); r.push_back({s, s}); }
    return r; }();
  return v;
}
// a few that can interact: quotes, escapes, escape-like letters, comment and keyword text, white space, multibyte
const std::vector<Atom>& few() {
  static const std::vector<Atom> v = {{"a", "a"}, {"n", "n"}, {"\\n", "\n"}, {"\\\\", "\\"}, {"\\\"", "\""}, {" ", " "}, {"\t", "\t"}, {"#", "#"}, {"\\q", "\\q"}, {"\xc3\xa9", "\xc3\xa9"}, {"msgid", "msgid"}, {"\r", "\r"}, {"[0]", "[0]"}, {"\\t", "\t"}, {"0", "0"}, {"\xff", "\xff"}, {"\\x", "\\x"}, {std::string("\0", 1), std::string("\0", 1)}};
  return v;
}
void same(Ctx& x, Dictionary& d, const std::vector<ref::Dict>& ok, const std::string& text) {
  Snap s = snap(d); x.step();
  for (auto& m : ok) if (s == snap_of(m)) { x.state(s.hash()); return; }
  x.fail("text:\n" + text + "\n" + diff(s, snap_of(ok[0])));
}
// one string in every role at once
void roles(Ctx& x, const std::string& txt, const std::string& val) {
  if (val.empty()) { x.trivial(); return; }
  std::string t = header("UTF-8", "nplurals=2; plural=(n != 1);") + "\n";
  t += "msgid \"" + txt + "\"\nmsgstr \"" + txt + "\"\n\n";
  t += "msgctxt \"" + txt + "\"\nmsgid \"k" + txt + "\"\nmsgstr \"<" + txt + ">\"\n\n";
  t += "msgid \"p" + txt + "\"\nmsgid_plural \"" + txt + "\"\nmsgstr[0] \"" + txt + "\"\nmsgstr[1] \"x" + txt + "\"\n\n";
  t += "msgid \"end\"\nmsgstr \"E\"\n";
  ref::Dict m; m.rule = rule(1);
  m.add(val, val); m.add_c(val, "k" + val, "<" + val + ">"); m.add("p" + val, Strings{val, "x" + val}); m.add("end", "E");
  x.note(mc::quote(txt) + " denotes " + mc::quote(val));
  Dictionary d; parse(t, d);
  same(x, d, {m}, t);
}
void pairs(Ctx& x) {
  const auto& a = atoms(); int n = static_cast<int>(a.size());
  int i = x.choose(n), j = x.choose(n + 1);
  if (j == n) roles(x, a[static_cast<size_t>(i)].text, a[static_cast<size_t>(i)].value);
  else roles(x, a[static_cast<size_t>(i)].text + a[static_cast<size_t>(j)].text, a[static_cast<size_t>(i)].value + a[static_cast<size_t>(j)].value);
}
// strings of a few atoms, cut into continuation lines in every way
void pieces(Ctx& x, int maxlen, size_t na) {
  int len = 1 + x.choose(maxlen); std::string txt, val;
  for (int i = 0; i < len; ++i) { const Atom& a = few()[static_cast<size_t>(x.choose(static_cast<int>(std::min(na, few().size()))))]; if (i) { int c = x.choose(3); if (c == 1) txt += "\"\n\""; if (c == 2) txt += "\"\n\"\"\n\""; } txt += a.text; val += a.value; }
  roles(x, txt, val);
}

// ---- files of several entries ----
struct Entry { std::string text; std::function<void(ref::Dict&)> apply; };
Entry plain(Cx c, const std::string& id, const std::string& s) { std::string key = c ? *c : ""; bool has = c; return {(c ? "msgctxt " + q(*c) + "\n" : "") + "msgid " + q(id) + "\nmsgstr " + q(s) + "\n", [=](ref::Dict& m) { if (s.empty()) return; if (has) m.add_c(key, id, s); else m.add(id, s); }}; }
Entry plural(Cx c, const std::string& id, const std::vector<std::pair<int, std::string>>& f) {
  std::string t = (c ? "msgctxt " + q(*c) + "\n" : "") + "msgid " + q(id) + "\nmsgid_plural " + q(id + "s") + "\n"; Strings v; bool any = false;
  for (auto& e : f) { t += "msgstr[" + std::to_string(e.first) + "] " + q(e.second) + "\n"; if (v.size() <= static_cast<size_t>(e.first)) v.resize(static_cast<size_t>(e.first) + 1); v[static_cast<size_t>(e.first)] = e.second; any |= !e.second.empty(); }
  std::string key = c ? *c : ""; bool has = c;
  return {t, [=](ref::Dict& m) { if (!any) return; if (has) m.add_c(key, id, v); else m.add(id, v); }};
}
const std::string EMPTY, CTX = "c", LONGCTX = "another context";
const std::vector<Entry>& entries() {
  static const std::vector<Entry> v = [] {
    std::vector<Entry> r;
    r.push_back(plain(nullptr, "a", "A")); r.push_back(plain(nullptr, "a", "B")); r.push_back(plain(nullptr, "a", "")); r.push_back(plain(nullptr, "b", "C"));
    r.push_back(plain(&EMPTY, "a", "D")); r.push_back(plain(&CTX, "a", "E")); r.push_back(plain(&CTX, "a", "F")); r.push_back(plain(&CTX, "a", "")); r.push_back(plain(&CTX, "", "G")); r.push_back(plain(&EMPTY, "", "H")); r.push_back(plain(&LONGCTX, "a\nb", "I\nJ"));
    r.push_back(plural(nullptr, "a", {{0, "K"}, {1, "L"}})); r.push_back(plural(nullptr, "p", {{1, "M"}, {0, "N"}})); r.push_back(plural(nullptr, "p", {{0, "O"}})); r.push_back(plural(nullptr, "p", {{1, "P"}}));
    r.push_back(plural(nullptr, "p", {{0, ""}, {1, ""}})); r.push_back(plural(nullptr, "p", {{0, ""}, {1, "Q"}})); r.push_back(plural(&CTX, "p", {{2, "R"}, {0, "S"}, {1, "T"}})); r.push_back(plural(&EMPTY, "p", {{9, "U"}}));
    r.push_back(plural(&CTX, "p", {{0, "V"}, {1, ""}}));
    std::string h = header("UTF-8", "nplurals=2; plural=(n != 1);");
    r.push_back({h, [](ref::Dict& m) { if (!m.rule) m.rule = rule(1); }});
    r.push_back({"#~ msgid \"a\"\n#~ msgstr \"obsolete\"\n", [](ref::Dict&) {}});
    r.push_back({"# msgid \"b\"\n", [](ref::Dict&) {}});
    r.push_back({"msgid \"\"\nmsgstr \"\"\n", [](ref::Dict&) {}});
    return r; }();
  return v;
}
void files(Ctx& x, int n) {
  int len = x.choose(n + 1); std::string t; ref::Dict k, r; r.reset_tail = true;
  for (int i = 0; i < len; ++i) { const Entry& e = entries()[static_cast<size_t>(x.choose(static_cast<int>(entries().size())))]; if (i) t += "\n"; t += e.text; e.apply(k); e.apply(r); }
  x.note(t);
  Dictionary d; parse(t, d);
  same(x, d, {k, r}, t);
}
// every order of up to five plural forms with any indices
void plural_orders(Ctx& x, int maxforms) {
  int n = 1 + x.choose(maxforms); std::vector<std::pair<int, std::string>> f; std::set<int> used;
  for (int i = 0; i < n; ++i) { int k = x.choose(10); if (used.count(k)) { x.trivial(); return; } used.insert(k); f.push_back({k, "f" + std::to_string(k)}); }
  int where = x.choose(2);
  Entry e = plural(where ? &CTX : nullptr, "a", f), g = plain(nullptr, "after", "x");
  ref::Dict m; e.apply(m); g.apply(m);
  std::string t = e.text + "\n" + g.text; x.note(t);
  Dictionary d; parse(t, d); same(x, d, {m}, t);
}
// every set of plural indices, in several orders
void plural_sets(Ctx& x) {
  int set = 1 + x.choose(1023), order = x.choose(12); std::vector<int> ix; for (int i = 0; i < 10; ++i) if ((set >> i) & 1) ix.push_back(i);
  if (order == 11) std::reverse(ix.begin(), ix.end()); else if (order == 10) std::stable_partition(ix.begin(), ix.end(), [](int i) { return i % 2; }); else { if (order >= static_cast<int>(ix.size())) { x.trivial(); return; } std::rotate(ix.begin(), ix.begin() + order, ix.end()); }
  std::vector<std::pair<int, std::string>> f; for (int i : ix) f.push_back({i, "form " + std::to_string(i)});
  for (Cx c : {static_cast<Cx>(nullptr), &CTX}) {
    Entry e = plural(c, "a", f), g = plain(nullptr, "after", "x"); ref::Dict m; e.apply(m); g.apply(m);
    std::string t = e.text + "\n" + g.text; x.note(t); Dictionary d; parse(t, d); same(x, d, {m}, t);
  }
}
// context, texts and translations that are equal to each other or empty
void coincide(Ctx& x, int most) {
  static const Strings v = {"a", "b", ""}; ref::Dict k, r; r.reset_tail = true; std::string t = header("UTF-8", "nplurals=2; plural=(n != 1);") + "\n"; k.rule = r.rule = rule(1);
  for (int i = 0; i < most; ++i) {
    int c = x.choose(4); const std::string* cp = c == 3 ? nullptr : &v[static_cast<size_t>(c)]; const std::string& id = v[static_cast<size_t>(x.choose(3))]; int p = x.choose(4);
    if (!cp && id.empty() && p < 3) { x.trivial(); return; }
    std::string e = cp ? "msgctxt " + q(*cp) + "\n" : ""; e += "msgid " + q(id) + "\n";
    auto put = [&](ref::Dict& m, const Strings& f) { if (cp) { if (p < 3) m.add_c(*cp, id, f); else m.add_c(*cp, id, f[0]); } else { if (p < 3) m.add(id, f); else m.add(id, f[0]); } };
    Strings f{v[static_cast<size_t>(x.choose(3))]}; if (p < 3) f.push_back(v[static_cast<size_t>(x.choose(3))]);
    if (p < 3) e += "msgid_plural " + q(v[static_cast<size_t>(p)]) + "\nmsgstr[0] " + q(f[0]) + "\nmsgstr[1] " + q(f[1]) + "\n"; else e += "msgstr " + q(f[0]) + "\n";
    bool any = false; for (auto& s : f) any |= !s.empty();
    if (any && (cp || !id.empty())) { put(k, f); put(r, f); }
    t += e + "\n";
  }
  x.note(t); Dictionary d; parse(t, d); same(x, d, {k, r}, t);
}
// one message defined several times, each definition plain or with any few forms, in each context
void repeats(Ctx& x, int times, int maxforms) {
  static const Strings val = {"x", "y", ""};
  int c = x.choose(3); Cx cxs[] = {nullptr, &CTX, &EMPTY}; std::string t; ref::Dict k, r; r.reset_tail = true;
  for (int i = 0; i < times; ++i) {
    int n = x.choose(maxforms + 1); std::vector<std::pair<int, std::string>> f; Entry e;
    if (n == 0) e = plain(cxs[c], "a", val[static_cast<size_t>(x.choose(3))]);
    else { for (int j = 0; j < n; ++j) f.push_back({j, val[static_cast<size_t>(x.choose(3))]}); e = plural(cxs[c], "a", f); }
    t += e.text + "\n"; e.apply(k); e.apply(r);
  }
  Entry o = plain(cxs[(c + 1) % 3], "a", "other"); t += o.text; o.apply(k); o.apply(r);
  x.note(t);
  Dictionary d; parse(t, d); same(x, d, {k, r}, t);
}
// sizes of strings, numbers of lines and of entries
void sizes(Ctx& x, int limit) {
  static const int extra[] = {4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072};
  int role = x.choose(6), k = x.choose(limit + 15); int n = k < limit ? k : extra[k - limit];
  std::string big; for (int i = 0; i < n; ++i) big += static_cast<char>('!' + 2 + (i * 7 + i / 13) % 50); for (auto& c : big) if (c == '\\') c = 'z';
  ref::Dict m; std::string t = header("UTF-8", "nplurals=2; plural=(n != 1);") + "\n"; m.rule = rule(1);
  auto put = [&](const Entry& e) { t += e.text + "\n"; e.apply(m); };
  x.note("role " + std::to_string(role) + " size " + std::to_string(n));
  put(plain(nullptr, "first", "1"));
  switch (role) {
    case 0: put(plain(nullptr, "i" + big, "s")); break;
    case 1: put(plain(nullptr, "i", "s" + big)); break;
    case 2: { std::string c = "c" + big; put(plain(&c, "i", "s")); break; }
    case 3: put(plural(nullptr, "i", {{0, "a" + big}, {1, big + "b"}})); break;
    case 4: { // n continuation lines
      t += "msgid \"\"\n"; std::string id, s; int c = std::min(n, 4096);
      for (int i = 0; i < c; ++i) { t += "\"l" + std::to_string(i) + " \"\n"; id += "l" + std::to_string(i) + " "; } t += "\"e\"\nmsgstr \"\"\n"; id += "e";
      for (int i = 0; i < c; ++i) { t += "\"\\n" + std::to_string(i) + "\"\n"; s += "\n" + std::to_string(i); } t += "\"f\"\n\n"; s += "f"; m.add(id, s); break; }
    default: { int c = std::min(n, 3000); for (int i = 0; i < c; ++i) put(i % 3 == 0 ? plain(nullptr, "i" + std::to_string(i), "s" + std::to_string(i)) : i % 3 == 1 ? plain(&CTX, "i" + std::to_string(i), "t" + std::to_string(i)) : plural(nullptr, "p" + std::to_string(i), {{0, "u" + std::to_string(i)}, {1, "v"}})); break; }
  }
  put(plain(nullptr, "last", "2"));
  Dictionary d; parse(t, d);
  Snap s = snap(d); x.step();
  if (s != snap_of(m)) x.fail("size " + std::to_string(n) + "\n" + diff(s, snap_of(m)));
  x.state(s.hash());
}
std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  std::vector<mc::Exploration> e;
  e.push_back({"pairs", "all single and all ordered pairs of " + std::to_string(atoms().size()) + " atoms (raw bytes, documented escapes, unknown escapes) in every role", pairs}); e.back().shard_depth = 1; e.back().max_seconds = 1000;
  int pl = t ? 4 : 3;
  e.push_back({"pieces", "all strings of at most " + std::to_string(pl) + " of 18 atoms, each gap joined, split over two or over three lines, in every role", [pl](Ctx& x) { pieces(x, pl, 18); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500;
  int pn = t ? 6 : 4;
  e.push_back({"pieces-long", "the same with at most " + std::to_string(pn) + " of 5 atoms", [pn](Ctx& x) { pieces(x, pn, 5); }}); e.back().shard_depth = 4; e.back().max_seconds = 2500;
  int fn = t ? 5 : 4;
  e.push_back({"files", "all files of at most " + std::to_string(fn) + " of " + std::to_string(entries().size()) + " entries", [fn](Ctx& x) { files(x, fn); }}); e.back().shard_depth = 3; e.back().max_seconds = 2500;
  int po = t ? 6 : 4;
  e.push_back({"plural-orders", "every sequence of at most " + std::to_string(po) + " distinct plural indices 0..9", [po](Ctx& x) { plural_orders(x, po); }}); e.back().shard_depth = 3; e.back().max_seconds = 1000;
  e.push_back({"plural-sets", "every set of the plural indices 0..9 in ascending, descending, rotated and odd-first order", plural_sets});
  int co = t ? 3 : 2;
  e.push_back({"coincide", "every sequence of " + std::to_string(co) + " entries whose context, texts and translations are drawn from two strings and the empty one", [co](Ctx& x) { coincide(x, co); }}); e.back().shard_depth = 5; e.back().max_seconds = 2500;
  int rp = t ? 3 : 2;
  e.push_back({"repeats", "every sequence of 2 definitions of one message with 0 (plain) to 3 forms out of 2 texts and none, in 3 contexts", [](Ctx& x) { repeats(x, 2, 3); }}); e.back().shard_depth = 3;
  e.push_back({"repeats-3", "the same with 3 definitions of at most " + std::to_string(rp) + " forms", [rp](Ctx& x) { repeats(x, 3, rp); }}); e.back().shard_depth = 4; e.back().max_seconds = 1000;
  int lim = t ? 3000 : 400;
  e.push_back({"sizes", "string lengths, line counts and entry counts 0.." + std::to_string(lim - 1) + " and around powers of two to 131072, in 6 roles", [lim](Ctx& x) { sizes(x, lim); }}); e.back().max_seconds = 2500;
  return e;
}
}
mc::Property mc::property = {"C01", "model_checking", "", {"the generator pairs each text with the catalogue it denotes by construction", "a plain redefinition of a plural message may keep or drop the other forms"}, all};
