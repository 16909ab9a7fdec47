// C07: every supported rule on every count, every spelling of the header, and near misses.
#include "tg.hpp"
using namespace tg;
using mc::Ctx;

namespace {
struct Native { const char* text; unsigned n; unsigned (*f)(unsigned); };
// The text of each rule is also compiled as C++, so the oracle is the header itself.
#define R(N, E) {"nplurals=" #N "; plural=" #E ";", N, [](unsigned n) -> unsigned { (void)n; return static_cast<unsigned>(E); }}
const Native NATIVE[] = {
  R(1, 0),
  R(2, (n != 1)),
  R(2, n != 1),
  R(2, (n > 1)),
  R(2, n==1 || n%10==1 ? 0 : 1),
  R(2, (n%10==1 && n%100!=11) ? 0 : 1),
  R(3, (n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2)),
  R(3, n==1 ? 0 : n==2 ? 1 : 2),
  R(3, (n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2)),
  R(3, (n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)),
  R(3, (n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2),
  R(3, (n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)),
  R(3, (n==1 ? 0 : (((n%100>19) || ((n%100==0) && (n!=0))) ? 2 : 1))),
  R(4, (n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3)),
  R(4, (n % 1 == 0 && n == 1 ? 0 : n % 1 == 0 && n >= 2 && n <= 4 ? 1 : n % 1 != 0 ? 2: 3)),
  R(4, (n == 1 && n % 1 == 0) ? 0 : (n >= 2 && n <= 4 && n % 1 == 0) ? 1 : (n % 1 != 0 ) ? 2 : 3),
  R(4, (n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14) ? 2 : 3)),
  R(4, (n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3),
  R(4, (n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3),
  R(4, (n % 10 == 1 && (n % 100 > 19 || n % 100 < 11) ? 0 : (n % 10 >= 2 && n % 10 <=9) && (n % 100 > 19 || n % 100 < 11) ? 1 : n % 1 != 0 ? 2: 3)),
  R(4, (n % 1 == 0 && n % 10 == 1 && n % 100 != 11 ? 0 : n % 1 == 0 && n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14) ? 1 : n % 1 == 0 && (n % 10 ==0 || (n % 10 >=5 && n % 10 <=9) || (n % 100 >=11 && n % 100 <=14 )) ? 2: 3)),
  R(4, (n==1 ? 0 : (n%10>=2 && n%10<=4) && (n%100<12 || n%100>14) ? 1 : n!=1 && (n%10>=0 && n%10<=1) || (n%10>=5 && n%10<=9) || (n%100>=12 && n%100<=14) ? 2 : 3)),
  R(4, (n == 1 && n % 1 == 0) ? 0 : (n == 2 && n % 1 == 0) ? 1: (n % 10 == 0 && n % 1 == 0 && n > 10) ? 2 : 3),
  R(5, (n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4)),
  R(6, n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5),
};
const int NR = sizeof NATIVE / sizeof *NATIVE;

std::string squeeze(const std::string& s) { std::string o; for (char c : s) if (c != ' ') o += c; return o; }

void values(Ctx& x, int64_t lo, int64_t hi, int chunks) {
  int r = x.choose(NR), c = x.choose(chunks);
  const Native& k = NATIVE[r];
  std::string head = std::string("Plural-Forms: ") + k.text;
  int64_t a = lo + (hi - lo) / chunks * c, b = c + 1 == chunks ? hi : lo + (hi - lo) / chunks * (c + 1);
  x.note(head + " counts " + std::to_string(a) + ".." + std::to_string(b));
  PluralForms p = PluralForms::from_string(head);
  if (!p) x.fail("supported rule not recognised: " + head);
  if (p.get_nplural() != k.n) x.fail("number of forms " + std::to_string(p.get_nplural()) + " instead of " + std::to_string(k.n) + " for " + head);
  uint64_t h = 0;
  for (int64_t v = a; v <= b; ++v) {
    int n = static_cast<int>(v);
    unsigned g = p.get_plural(n);
    if (g >= k.n) x.fail("form " + std::to_string(g) + " for count " + std::to_string(n) + " is not below " + std::to_string(k.n) + ": " + head);
    if (n >= 0 && g != k.f(static_cast<unsigned>(n))) x.fail("form " + std::to_string(g) + " for count " + std::to_string(n) + ", the header says " + std::to_string(k.f(static_cast<unsigned>(n))) + ": " + head);
    h = h * 31 + g;
  }
  x.step(static_cast<uint64_t>(b - a + 1));
  x.state(h + static_cast<uint64_t>(r) * 977);
}

// the two oracles agree (text interpreted and text compiled), so near misses can be judged by the interpreter
const std::vector<int>& probes() { static const std::vector<int> v = [] { std::vector<int> r; for (int i = 0; i <= 230; ++i) r.push_back(i); for (int i : {999, 1000, 1001, 1002, 1003, 1011, 1111, 1112, 10000, 1000000, INT_MAX - 1, INT_MAX}) r.push_back(i); return r; }(); return v; }
void oracle(Ctx& x) {
  int r = x.choose(NR); const Native& k = NATIVE[r];
  ref::PluralExpr e(k.text);
  if (e.nplurals != k.n) x.fail("driver error: oracle");
  if (squeeze(ref::plural_headers()[static_cast<size_t>(r)]) != squeeze(k.text)) x.fail("driver error: rule tables differ");
  for (int n = 0; n < 3000; ++n) if (e(static_cast<unsigned long>(n)) != k.f(static_cast<unsigned>(n))) x.fail("driver error: oracles differ for " + std::string(k.text));
  x.step(3000); x.state(static_cast<uint64_t>(r));
}

std::vector<std::string> tokens(const std::string& s) {   // of "nplurals=..;plural=..;"
  std::vector<std::string> t;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == ' ') { ++i; continue; }
    size_t b = i;
    if (isalpha(static_cast<unsigned char>(s[i]))) while (i < s.size() && isalpha(static_cast<unsigned char>(s[i]))) ++i;
    else if (isdigit(static_cast<unsigned char>(s[i]))) while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i;
    else { static const char* two[] = {"==", "!=", "<=", ">=", "&&", "||"}; ++i; for (auto w : two) if (s.compare(b, 2, w) == 0) i = b + 2; }
    t.push_back(s.substr(b, i - b));
  }
  return t;
}
void same(Ctx& x, const std::string& head, const Native& k, const std::vector<int>& counts) {
  PluralForms p = PluralForms::from_string(head);
  if (!p) x.fail("spelling not recognised: " + mc::quote(head));
  if (p.get_nplural() != k.n) x.fail("number of forms " + std::to_string(p.get_nplural()) + ": " + mc::quote(head));
  for (int n : counts) if (p.get_plural(n) != k.f(static_cast<unsigned>(n))) x.fail("form " + std::to_string(p.get_plural(n)) + " for count " + std::to_string(n) + ": " + mc::quote(head));
  x.step();
}
// white space at any two token gaps, with and without the closing semicolon, directly and through a PO header
void spelling(Ctx& x, bool thorough) {
  static const char* WS[] = {"", " ", "\t", "  ", " \t "};
  int r = x.choose(NR); const Native& k = NATIVE[r];
  std::vector<std::string> t = tokens(k.text);
  bool semi = x.choose(2) == 0; if (!semi) t.pop_back();
  int base = x.choose(3);   // none, one blank, one tab at every gap
  int g1 = x.choose(static_cast<int>(t.size()) + 1);
  int w1 = x.choose(thorough ? 5 : 4);
  auto build = [&](int g2, int w2) {
    std::string head = "Plural-Forms:";
    for (int i = 0; i <= static_cast<int>(t.size()); ++i) { head += i == g1 ? WS[w1] : i == g2 ? WS[w2] : WS[base]; if (i < static_cast<int>(t.size())) head += t[static_cast<size_t>(i)]; }
    return head;
  };
  static const std::vector<int> few = {0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 12, 14, 19, 20, 21, 22, 100, 101, 102, 103, 111, 112, 1000};
  for (int g2 = g1 + 1; g2 <= static_cast<int>(t.size()); ++g2) for (int w2 = 0; w2 < 4; ++w2) same(x, build(g2, w2), k, few);
  std::string head = build(-1, 0);
  x.note(mc::quote(head));
  same(x, head, k, probes());
  x.state(head);
  // the same text as a header line of a PO file
  std::string plain; for (char c : head) if (c == '\t') plain += "\\t"; else plain += c;
  for (int v = 0; v < 3; ++v) {
    Dictionary d;
    std::string po = "msgid \"\"\nmsgstr \"\"\n";
    if (v == 0) po += "\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"" + plain + "\\n\"\n";
    if (v == 1) { size_t cut = plain.size() / 2; while (cut && plain[cut - 1] == '\\') --cut; po += "\"" + plain.substr(0, cut) + "\"\n\"" + plain.substr(cut) + "\\n\"\n\"X-Generator: y\\n\"\n"; }
    if (v == 2) po = "msgid \"\"\nmsgstr \"X: y\\n" + plain + "\\nContent-Type: text/plain; charset=UTF-8\\n\"\n";
    po += "\nmsgid \"a\"\nmsgid_plural \"as\"\n";
    for (unsigned i = 0; i < k.n; ++i) po += "msgstr[" + std::to_string(i) + "] \"f" + std::to_string(i) + "\"\n";
    parse(po, d);
    if (!d.get_plural_forms()) x.fail("rule of the PO header not recognised:\n" + po);
    for (int n : few) { std::string w = "f" + std::to_string(k.f(static_cast<unsigned>(n))); if (d.translate_plural("a", "as", n) != w) x.fail("count " + std::to_string(n) + " gives " + d.translate_plural("a", "as", n) + " instead of " + w + ":\n" + po); }
    x.step();
  }
}

// anything recognised must mean what its text says; anything that is not an expression must be unknown
void judge(Ctx& x, const std::string& head, uint64_t& known) {
  PluralForms p = PluralForms::from_string(head);
  x.step();
  if (!p) return;
  ++known;
  static const std::string pre = "Plural-Forms:";
  std::string body = squeeze(head);
  bool ok = body.compare(0, pre.size(), pre) == 0;
  std::string why;
  if (!ok) { std::string low; for (char c : body.substr(0, pre.size())) low += static_cast<char>(tolower(c)); if (low == "plural-forms:") ok = true; }
  if (!ok) x.fail("not a Plural-Forms header but recognised: " + mc::quote(head));
  body = body.substr(pre.size());
  if (body.compare(0, 9, "nplurals=") != 0 || !isdigit(static_cast<unsigned char>(body.size() > 9 ? body[9] : 'x'))) x.fail("not a Plural-Forms header but recognised: " + mc::quote(head));
  try {
    size_t z = 9; while (isdigit(static_cast<unsigned char>(body[z]))) ++z;
    if (body.compare(z, 8, ";plural=") != 0) throw std::runtime_error("separator");
    ref::PluralExpr e(body);
    if (p.get_nplural() != e.nplurals) x.fail("number of forms " + std::to_string(p.get_nplural()) + " instead of " + std::to_string(e.nplurals) + " for " + mc::quote(head));
    for (int n : probes()) if (p.get_plural(n) != e(static_cast<unsigned long>(n))) x.fail("mistaken for another rule: form " + std::to_string(p.get_plural(n)) + " for count " + std::to_string(n) + ", the header says " + std::to_string(e(static_cast<unsigned long>(n))) + ": " + mc::quote(head));
  } catch (std::runtime_error&) { x.fail("recognised although it is not a C expression: " + mc::quote(head)); }
}
const std::string EDIT = "0123456789n%=!<>&|?:()+-";
void each_edit(const std::string& s, const std::function<void(const std::string&)>& f) {
  for (size_t i = 0; i < s.size(); ++i) f(s.substr(0, i) + s.substr(i + 1));
  for (size_t i = 0; i < s.size(); ++i) for (char c : EDIT) if (c != s[i]) { std::string t = s; t[i] = c; f(t); }
  for (size_t i = 0; i <= s.size(); ++i) for (char c : EDIT) f(s.substr(0, i) + c + s.substr(i));
  for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] != s[i + 1]) { std::string t = s; std::swap(t[i], t[i + 1]); f(t); }
}
void near_miss(Ctx& x, bool two) {
  int r = x.choose(NR); bool semi = x.choose(2) == 0;
  std::string s = squeeze(NATIVE[r].text); if (!semi) s.pop_back();
  uint64_t known = 0;
  if (!two) { each_edit(s, [&](const std::string& t) { judge(x, "Plural-Forms: " + t, known); }); each_edit("Plural-Forms:", [&](const std::string& t) { judge(x, t + s, known); });
    for (size_t i = 0; i <= s.size(); ++i) { judge(x, "Plural-Forms: " + s.substr(0, i), known); judge(x, "Plural-Forms: " + s.substr(i), known); }
    judge(x, s, known); judge(x, "Plural-Forms: " + s + s, known);
  } else {
    std::vector<std::string> one; each_edit(s, [&](const std::string& t) { one.push_back(t); });
    int k = x.choose(16);
    for (size_t i = static_cast<size_t>(k); i < one.size(); i += 16) each_edit(one[i], [&](const std::string& t) { judge(x, "Plural-Forms:" + t, known); });
  }
  x.note(s + ": " + std::to_string(known) + " edited headers recognised"); x.state(mc::hash(s) + known);
}
// every count of forms with every expression; every truncated expression list
void cross(Ctx& x) {
  int r = x.choose(NR), np = x.choose(12);
  std::string s = squeeze(NATIVE[r].text); std::string e = s.substr(s.find(';') + 1);
  uint64_t known = 0;
  judge(x, "Plural-Forms: nplurals=" + std::to_string(np) + "; " + e, known);
  judge(x, "Plural-Forms: nplurals=" + std::to_string(np) + ";" + e.substr(0, e.size() - 1), known);
  // all expressions with and without outer parentheses
  std::string b = e.substr(7, e.size() - 8);
  judge(x, "Plural-Forms: nplurals=" + std::to_string(np) + "; plural=(" + b + ");", known);
  if (b.size() > 2 && b[0] == '(') judge(x, "Plural-Forms: nplurals=" + std::to_string(np) + "; plural=" + b.substr(1, b.size() - 2) + ";", known);
  if (static_cast<unsigned>(np) == NATIVE[r].n && known < 2) x.fail("supported rule not recognised with or without its semicolon: " + s);
  x.state(s + std::to_string(np) + std::to_string(known));
}
void undefined_rule(Ctx& x) {
  PluralForms p;
  if (p || p.get_nplural() != 0) x.fail("an undefined rule has forms");
  for (int n : {0, 1, 2, -1, INT_MAX, INT_MIN}) if (p.get_plural(n) != 0) x.fail("an undefined rule selects a form other than the first");
  // all rules are pairwise equal only to themselves or to rules with the same function
  int i = x.choose(NR), j = x.choose(NR);
  PluralForms a = PluralForms::from_string(std::string("Plural-Forms: ") + NATIVE[i].text), b = PluralForms::from_string(std::string("Plural-Forms: ") + NATIVE[j].text);
  if (i == j && (a != b || !(a == b))) x.fail("a rule differs from itself");
  bool differ = NATIVE[i].n != NATIVE[j].n; for (int n : probes()) differ |= NATIVE[i].f(static_cast<unsigned>(n)) != NATIVE[j].f(static_cast<unsigned>(n));
  if (differ && (a == b || !(a != b))) x.fail("different rules compare equal");
  x.step(8); x.state(static_cast<uint64_t>(i * 100 + j));
}

std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  std::vector<mc::Exploration> e;
  e.push_back({"oracle", "both oracles on counts 0..2999", oracle});
  if (t) {
    e.push_back({"values", "25 rules x every int count from -2^31 to 2^31-1", [](Ctx& x) { values(x, INT_MIN, INT_MAX, 1024); }});
    e.back().max_seconds = 3000;
  } else {
    e.push_back({"values", "25 rules x all counts from -2000000 to 50000000", [](Ctx& x) { values(x, -2000000, 50000000, 64); }});
    e.push_back({"values-high", "25 rules x all counts from 2^31-300001 to 2^31-1", [](Ctx& x) { values(x, INT_MAX - 300000, INT_MAX, 4); }});
    e.push_back({"values-low", "25 rules x all counts from -2^31 to -2^31+100000", [](Ctx& x) { values(x, INT_MIN, static_cast<int64_t>(INT_MIN) + 100000, 4); }});
  }
  e.push_back({"spelling", "25 rules x with/without semicolon x 3 base spacings x white space at any pair of token gaps; also read from PO headers laid out in 3 ways", [t](Ctx& x) { spelling(x, t); }});
  e.push_back({"near-miss", "every one-character edit, truncation and swap of every header", [](Ctx& x) { near_miss(x, false); }});
  if (t) { e.push_back({"near-miss-2", "every two-character edit of every header", [](Ctx& x) { near_miss(x, true); }}); e.back().max_seconds = 3000; e.back().shard_depth = 3; }
  e.push_back({"cross", "every expression with every number of forms 0..11, parentheses added or removed", cross});
  e.push_back({"undefined", "the undefined rule; all pairs of rules", undefined_rule});
  return e;
}
}
mc::Property mc::property = {"C07", "model_checking", "", {"C's evaluation of the header text for non-negative int counts is the meaning of a rule", "a rule is supported when it is one of the 25 expressions of the library's table (Latvian and Slovenian in their valid spelling)"}, all};
