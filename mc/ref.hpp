// Reference models: boring, independent of the code under test.
#pragma once
#include <climits>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {

typedef std::vector<std::string> Strings;

// ---- C expression of a Plural-Forms header --------------------------------------------------
// Grammar of the GNU manual: ?: || && == != < > <= >= + - * / % ! ( ) n and decimal numbers.
class PluralExpr {
  struct Node { char op; unsigned long v; int a, b, c; };
  std::vector<Node> nodes; int root = -1; std::string s; size_t p = 0;
  int mk(char op, int a = -1, int b = -1, int c = -1, unsigned long v = 0) { nodes.push_back(Node{op, v, a, b, c}); return static_cast<int>(nodes.size()) - 1; }
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) ++p; }
  bool eat(const char* t) { ws(); size_t k = std::string(t).size(); if (s.compare(p, k, t) == 0) { p += k; return true; } return false; }
  int prim() { ws(); if (eat("(")) { int e = tern(); if (!eat(")")) throw std::runtime_error("paren"); return e; }
    if (eat("!")) return mk('!', prim());
    if (p < s.size() && s[p] == 'n') { ++p; return mk('n'); }
    if (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) { unsigned long v = 0; while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) v = v * 10 + static_cast<unsigned long>(s[p++] - '0'); return mk('#', -1, -1, -1, v); }
    throw std::runtime_error("syntax"); }
  int mul() { int e = prim(); for (;;) { ws(); if (eat("*")) e = mk('*', e, prim()); else if (eat("/")) e = mk('/', e, prim()); else if (eat("%")) e = mk('%', e, prim()); else return e; } }
  int add() { int e = mul(); for (;;) { if (eat("+")) e = mk('+', e, mul()); else if (eat("-")) e = mk('-', e, mul()); else return e; } }
  int rel() { int e = add(); for (;;) { if (eat("<=")) e = mk('l', e, add()); else if (eat(">=")) e = mk('g', e, add()); else if (eat("<")) e = mk('<', e, add()); else if (eat(">")) e = mk('>', e, add()); else return e; } }
  int eq() { int e = rel(); for (;;) { if (eat("==")) e = mk('=', e, rel()); else if (eat("!=")) e = mk('x', e, rel()); else return e; } }
  int land() { int e = eq(); while (eat("&&")) e = mk('&', e, eq()); return e; }
  int lor() { int e = land(); while (eat("||")) e = mk('|', e, land()); return e; }
  int tern() { int e = lor(); if (eat("?")) { int a = tern(); if (!eat(":")) throw std::runtime_error("colon"); int b = tern(); return mk('?', e, a, b); } return e; }
  unsigned long ev(int i, unsigned long n) const { const Node& k = nodes[static_cast<size_t>(i)];
    switch (k.op) { case 'n': return n; case '#': return k.v; case '!': return !ev(k.a, n);
      case '*': return ev(k.a, n) * ev(k.b, n); case '/': return ev(k.a, n) / ev(k.b, n); case '%': return ev(k.a, n) % ev(k.b, n);
      case '+': return ev(k.a, n) + ev(k.b, n); case '-': return ev(k.a, n) - ev(k.b, n);
      case '<': return ev(k.a, n) < ev(k.b, n); case '>': return ev(k.a, n) > ev(k.b, n); case 'l': return ev(k.a, n) <= ev(k.b, n); case 'g': return ev(k.a, n) >= ev(k.b, n);
      case '=': return ev(k.a, n) == ev(k.b, n); case 'x': return ev(k.a, n) != ev(k.b, n);
      case '&': return ev(k.a, n) && ev(k.b, n); case '|': return ev(k.a, n) || ev(k.b, n);
      case '?': return ev(k.a, n) ? ev(k.b, n) : ev(k.c, n); }
    throw std::runtime_error("op"); }
public:
  unsigned long nplurals = 0;
  // header: "Plural-Forms: nplurals=N; plural=EXPR;"
  explicit PluralExpr(const std::string& header) {
    size_t a = header.find("nplurals="), b = header.find("plural=", a + 9);
    if (a == std::string::npos || b == std::string::npos) throw std::runtime_error("header");
    nplurals = strtoul(header.c_str() + a + 9, nullptr, 10);
    s = header.substr(b + 7);
    size_t e = s.find(';'); if (e != std::string::npos) s = s.substr(0, e);
    root = tern(); ws(); if (p != s.size()) throw std::runtime_error("trailing");
  }
  unsigned long operator()(unsigned long n) const { return ev(root, n); }
};

// The rules the library documents as supported, one per expression, in canonical spelling.
inline const Strings& plural_headers() {
  static const Strings h = {
    "nplurals=1; plural=0;",
    "nplurals=2; plural=(n != 1);",
    "nplurals=2; plural=n != 1;",
    "nplurals=2; plural=(n > 1);",
    "nplurals=2; plural=n==1 || n%10==1 ? 0 : 1;",
    "nplurals=2; plural=(n%10==1 && n%100!=11) ? 0 : 1;",
    "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2);",
    "nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;",
    "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2);",
    "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
    "nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;",
    "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
    "nplurals=3; plural=(n==1 ? 0 : (((n%100>19) || ((n%100==0) && (n!=0))) ? 2 : 1));",
    "nplurals=4; plural=(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3);",
    "nplurals=4; plural=(n % 1 == 0 && n == 1 ? 0 : n % 1 == 0 && n >= 2 && n <= 4 ? 1 : n % 1 != 0 ? 2: 3);",
    "nplurals=4; plural=(n == 1 && n % 1 == 0) ? 0 : (n >= 2 && n <= 4 && n % 1 == 0) ? 1 : (n % 1 != 0 ) ? 2 : 3;",
    "nplurals=4; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14) ? 2 : 3);",
    "nplurals=4; plural=(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3;",
    "nplurals=4; plural=(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3;",
    "nplurals=4; plural=(n % 10 == 1 && (n % 100 > 19 || n % 100 < 11) ? 0 : (n % 10 >= 2 && n % 10 <=9) && (n % 100 > 19 || n % 100 < 11) ? 1 : n % 1 != 0 ? 2: 3);",
    "nplurals=4; plural=(n % 1 == 0 && n % 10 == 1 && n % 100 != 11 ? 0 : n % 1 == 0 && n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14) ? 1 : n % 1 == 0 && (n % 10 ==0 || (n % 10 >=5 && n % 10 <=9) || (n % 100 >=11 && n % 100 <=14 )) ? 2: 3);",
    "nplurals=4; plural=(n==1 ? 0 : (n%10>=2 && n%10<=4) && (n%100<12 || n%100>14) ? 1 : n!=1 && (n%10>=0 && n%10<=1) || (n%10>=5 && n%10<=9) || (n%100>=12 && n%100<=14) ? 2 : 3);",
    "nplurals=4; plural=(n == 1 && n % 1 == 0) ? 0 : (n == 2 && n % 1 == 0) ? 1: (n % 10 == 0 && n % 1 == 0 && n > 10) ? 2 : 3;",
    "nplurals=5; plural=(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4);",
    "nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5;",
  };
  return h;
}

// The plural rule as a black box (C07 decides the rules themselves).
struct Selector { virtual ~Selector() {} virtual size_t form(int n) const = 0; virtual unsigned count() const = 0; };

// ---- dictionary -----------------------------------------------------------------------------
struct Dict {
  typedef std::map<std::string, Strings> Entries;
  Entries plain;
  std::map<std::string, Entries> ctxt;
  const Selector* rule = nullptr;
  const Dict* fallback = nullptr;
  bool reset_tail = false;   // whether a plain definition over a plural one drops the other forms

  void put(Entries& e, const std::string& id, const std::string& s) { Strings& v = e[id]; if (v.empty() || reset_tail) v.assign(1, s); else v[0] = s; }
  void add(const std::string& id, const std::string& s) { put(plain, id, s); }
  void add(const std::string& id, const Strings& v) { plain[id] = v; }
  void add_c(const std::string& c, const std::string& id, const std::string& s) { put(ctxt[c], id, s); }
  void add_c(const std::string& c, const std::string& id, const Strings& v) { ctxt[c][id] = v; }

  const Strings* find(const std::string* c, const std::string& id) const {
    const Entries* e = &plain;
    if (c) { auto i = ctxt.find(*c); if (i == ctxt.end()) return nullptr; e = &i->second; }
    auto j = e->find(id); return j == e->end() ? nullptr : &j->second;
  }
  std::string translate(const std::string* c, const std::string& id) const {
    const Strings* v = find(c, id);
    if (v && !v->empty() && !(*v)[0].empty()) return (*v)[0];
    return fallback ? fallback->translate(c, id) : id;
  }
  std::string plural(const std::string* c, const std::string& id, const std::string& pl, int count) const {
    const Strings* v = find(c, id);
    size_t n = rule ? rule->form(count) : 0;
    if (v && n < v->size() && !(*v)[n].empty()) return (*v)[n];
    if (fallback) return fallback->plural(c, id, pl, count);
    return count == 1 ? id : pl;
  }
};

// ---- languages ------------------------------------------------------------------------------
struct Lang {
  std::string l, c, m;
  bool operator<(const Lang& o) const { return l != o.l ? l < o.l : c != o.c ? c < o.c : m < o.m; }
  bool operator==(const Lang& o) const { return l == o.l && c == o.c && m == o.m; }
  std::string str() const { std::string s = l; if (!c.empty()) s += "_" + c; if (!m.empty()) s += "@" + m; return s; }
};
inline int agree(const std::string& a, const std::string& b) { return a == b ? 0 : (a.empty() || b.empty()) ? 1 : 2; }
inline int match(const Lang& a, const Lang& b) {
  if (a.l != b.l) return 0;
  // same/same, same/open, open/same, open/open, same/diff, diff/same, open/diff, diff/open, diff/diff
  int k = agree(a.c, b.c) * 3 + agree(a.m, b.m);
  switch (k) { case 0: return 9; case 1: return 8; case 3: return 7; case 4: return 6; case 2: return 5; case 6: return 4; case 5: return 3; case 7: return 2; default: return 1; }
}
// LANGUAGE[_COUNTRY][.CODESET][@MODIFIER]
inline Lang split(const std::string& env) {
  Lang r; std::string head = env;
  size_t at = head.find('@'); if (at != std::string::npos) { r.m = head.substr(at + 1); head = head.substr(0, at); }
  size_t dt = head.find('.'); if (dt != std::string::npos) head = head.substr(0, dt);
  size_t un = head.find('_'); if (un != std::string::npos) { r.c = head.substr(un + 1); head = head.substr(0, un); }
  r.l = head; return r;
}

} // namespace ref
