// C26: every public function has an answer for every argument.
#include <fstream>
#include <iconv.h>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include "mgr.hpp"
#include "langs.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
std::string word(Ctx& x, const std::string& alphabet, int max) { std::string s; int n = x.choose(max + 1); for (int i = 0; i < n; ++i) s += alphabet[static_cast<size_t>(x.choose(static_cast<int>(alphabet.size())))]; return s; }
const Strings& odd() { static const Strings v = {"", "a", std::string("\0", 1), std::string("a\0b", 3), std::string("a\0", 2), std::string(300, 'x'), std::string(100000, 'y'), "\n", "%s%n%d", "\xff\xfe", "a\4b", " a", "a ", "\xc3", "msgid \"\"", "A"}; return v; }
std::string any(Ctx& x) { return odd()[static_cast<size_t>(x.choose(static_cast<int>(odd().size())))]; }
std::string qq(const std::string& s) { return mc::quote(s, 60); }
DictionaryManager& plain_manager() { static DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(std::make_shared<Files>()))); return m; }
// the language string a file name stands for
std::string ref_name(const std::string& f) {
  std::string s = f; if (s.size() >= 3 && s.substr(s.size() - 3) == ".po") s.resize(s.size() - 3); size_t u = s.find('_'); if (u != std::string::npos) for (size_t i = u + 1; i < s.size(); ++i) { char c = s[i]; if (c >= 'a' && c <= 'z') s[i] = static_cast<char>(c - 32); else if (!(c >= 'A' && c <= 'Z')) break; } return s;
}
void names(Ctx& x, int max) { std::string s = word(x, std::string(".po_aZ@\xe9\0", 9), max); int tail = x.choose(3); if (tail == 1) s += ".po"; if (tail == 2) s += ".PO"; std::string g; x.note(qq(s)); try { g = plain_manager().convertFilename2Language(s); } catch (std::exception& e) { x.fail("convertFilename2Language(" + qq(s) + ") throws " + e.what()); } x.step(); if (g != ref_name(s)) x.fail("convertFilename2Language(" + qq(s) + ") gives " + qq(g) + ", expected " + qq(ref_name(s))); x.state(s); }
bool listed(const Language& l) { static const std::set<ref::Lang> known = [] { std::set<ref::Lang> k; for (auto& r : ref::LANGS) k.insert(ref::Lang{r.l, r.c, r.m}); return k; }(); return known.count(lang(l)) != 0; }
void usable(Ctx& x, const Language& l, const std::string& how) {
  if (l) { if (!listed(l)) x.fail(how + " gives " + qq(l.str()) + ", which is no known language"); if (l.str() != lang(l).str()) x.fail(how + ": str() is " + qq(l.str())); if (l.get_name().empty() && *l.get_language().c_str()) {} (void)l.get_localized_name(); if (Language::from_spec(l.get_language(), l.get_country(), l.get_modifier()) != l) x.fail(how + " gives " + l.str() + ", which its own parts do not name"); }
  else if (!l.str().empty() || !l.get_language().empty() || !l.get_country().empty() || !l.get_modifier().empty() || !l.get_name().empty() || !l.get_localized_name().empty()) x.fail(how + " gives no language, but one with a text");
  for (const Language& o : {Language(), Language::from_spec("de"), Language::from_spec("sr", "RS", "latin")}) { int a = Language::match(l, o), b = Language::match(o, l); if (a != b || a < 0 || a > 9 || (a == 0) != (l.get_language() != o.get_language())) x.fail(how + ": match with " + qq(o.str()) + " gives " + std::to_string(a) + " and " + std::to_string(b)); if ((l == o) == (l != o) || (l == o && (l < o || o < l)) || (l < o && o < l)) x.fail(how + ": comparison with " + qq(o.str())); if (l == o && Language_hash()(l) != Language_hash()(o)) x.fail(how + ": hash"); }
  x.step(8);
}
void languages(Ctx& x, int max) {
  int f = x.choose(3); std::string a, b, c;
  if (f < 2) { a = x.choose(2) ? "de" : ""; a += word(x, std::string("dE_@.T\0\xff ", 9), max); } else { static const Strings L = {"", "de", "DE", "a language", std::string("de\0", 3), "sr", "ca"}, C = {"", "DE", "de", "RS", std::string("\0DE", 3), std::string(1000, 'A')}, M = {"", "latin", "valencia", "\xff", std::string("latin\0x", 7)}; a = L[static_cast<size_t>(x.choose(7))]; b = C[static_cast<size_t>(x.choose(6))]; c = M[static_cast<size_t>(x.choose(5))]; }
  std::string how = (f == 0 ? "from_env(" : f == 1 ? "from_name(" : "from_spec(") + qq(a) + (f == 2 ? ", " + qq(b) + ", " + qq(c) : "") + ")"; x.note(how);
  try { usable(x, f == 0 ? Language::from_env(a) : f == 1 ? Language::from_name(a) : Language::from_spec(a, b, c), how); } catch (std::exception& e) { x.fail(how + " throws " + e.what()); } x.state(how);
}
void long_languages(Ctx& x) { static const char* const P[] = {"", "de", "de_", "de_DE", "de_DE.", "de@", "de_DE@", "_", ".", "@", "german"}; std::string s = P[x.choose(11)]; int n = x.choose(4); static const size_t N[] = {1, 100, 10000, 1000000}; s += std::string(N[n], "a_.@\0Z"[x.choose(6)]); s += P[x.choose(11)]; std::string how = "language of " + std::to_string(s.size()) + " bytes starting with " + mc::quote(s, 20); x.note(how); try { usable(x, Language::from_env(s), how); usable(x, Language::from_name(s), how); usable(x, Language::from_spec(s, s, s), how); } catch (std::exception& e) { x.fail(how + " throws " + e.what()); } x.state(how); }
// ---- dictionaries ----
unsigned far(int n) { return n < 0 ? UINT_MAX : n > 5 ? static_cast<unsigned>(n) : 3u; }
struct FarRule : ref::Selector { size_t form(int n) const override { return far(n); } unsigned count() const override { return 2; } };
void dictionaries(Ctx& x) {
  static const int N[] = {INT_MIN, -1, 0, 1, 2, 7, INT_MAX}; static const FarRule far_rule;
  int ctx = x.choose(2), state = x.choose(3), r = x.choose(3), op = x.choose(2); std::string c = any(x), id = any(x), held = state == 1 ? any(x) : ""; std::string how = std::string("a dictionary holding ") + (state == 0 ? "nothing" : state == 1 ? qq(held) : "everything") + (r ? r == 1 ? " with a rule" : " with a rule of absurd results" : "") + ", " + (op ? "after an addition of " : "lookup of ") + qq(id) + (ctx ? " in context " + qq(c) : ""); x.note(how);
  Dictionary d(odd()[static_cast<size_t>(state)]); ref::Dict w; if (r == 1) { d.set_plural_forms(forms(ref::plural_headers()[24])); w.rule = rule(24); } if (r == 2) { d.set_plural_forms(PluralForms(2, far)); w.rule = &far_rule; }
  if (d.get_charset() != odd()[static_cast<size_t>(state)]) x.fail(how + ": get_charset() gives " + qq(d.get_charset()));
  auto hold = [&](const std::string& s) { for (Cx k : {static_cast<Cx>(nullptr), static_cast<Cx>(&s)}) { add(d, k, s, "T" + s); add(w, k, s, "T" + s); std::string p = s + "p"; addp(d, k, p, s, Strings{"1" + s, "", "3"}); addp(w, k, p, Strings{"1" + s, "", "3"}); } }; if (state == 1) hold(held); if (state == 2) for (auto& s : odd()) hold(s);
  Cx k = ctx ? &c : nullptr; if (op) { add(d, k, id, c); add(w, k, id, c); addp(d, k, id + "q", c, Strings()); addp(w, k, id + "q", Strings()); x.step(2); }
  try { for (const std::string& i : {id, id + "p", id + "q"}) { std::string g = tr(d, k, i), e = w.translate(k, i); if (g != e) x.fail(how + ": translation of " + qq(i) + " is " + qq(g) + ", expected " + qq(e)); for (int n : N) { g = trp(d, k, i, c, n); e = w.plural(k, i, c, n); if (g != e) x.fail(how + ": translation of " + qq(i) + " for " + std::to_string(n) + " is " + qq(g) + ", expected " + qq(e)); } x.step(8); } } catch (std::exception& e) { x.fail(how + " throws " + e.what()); }
  Snap s = lean(snap(d)), ws = lean(snap_of(w)); if (r != 2 && s != ws) x.fail(how + "\n" + diff(s, ws)); x.state(how);
}
void fallbacks(Ctx& x) { // chains and lookups through them with odd strings
  int n = 1 + x.choose(4); std::string c = any(x), id = any(x); int where = x.choose(n + 1); bool ctx = x.choose(2), pl = x.choose(2); std::vector<std::unique_ptr<Dictionary>> v; for (int i = 0; i < n; ++i) { v.emplace_back(new Dictionary); if (i) v[static_cast<size_t>(i) - 1]->addFallback(v[static_cast<size_t>(i)].get()); } Cx k = ctx ? &c : nullptr;
  if (where < n) { if (pl) addp(*v[static_cast<size_t>(where)], k, id, c, Strings{"found"}); else add(*v[static_cast<size_t>(where)], k, id, "found"); } std::string how = "chain of " + std::to_string(n) + ", " + qq(id) + (ctx ? " in " + qq(c) : "") + (where < n ? " held by number " + std::to_string(where) : " held by none"); x.note(how);
  std::string g = tr(*v[0], k, id), h = trp(*v[0], k, id, "many", 5), o = trp(*v[0], k, id, "many", 1); x.step(3); bool f = where < n; if (g != (f ? "found" : id) || h != (f ? "found" : "many") || o != (f ? "found" : id)) x.fail(how + " gives " + qq(g) + ", " + qq(h) + ", " + qq(o)); x.state(how);
}
void rules(Ctx& x) {
  int how = x.choose(3); std::string s; if (how == 0) s = word(x, std::string("n=1;?:\0\xff( ", 11), 4); if (how == 1) { s = any(x); } if (how == 2) { s = "Plural-Forms: " + ref::plural_headers()[static_cast<size_t>(x.choose(static_cast<int>(ref::plural_headers().size())))]; size_t cut = static_cast<size_t>(x.choose(60)); int m = x.choose(4); if (cut > s.size()) { x.trivial(); return; } if (m == 0) s = s.substr(0, cut); if (m == 1) s.insert(cut, 1, '\0'); if (m == 2) s.insert(cut, "\xa0"); if (m == 3) s = s.substr(cut); }
  x.note(qq(s)); PluralForms p; try { p = PluralForms::from_string(s); } catch (std::exception& e) { x.fail("from_string(" + qq(s) + ") throws " + e.what()); } x.step(); bool full = false; { std::string t; for (char c : s) if (!isspace(static_cast<unsigned char>(c))) t += c; if (t.empty() || t.back() != ';') t += ';'; for (auto& h : ref::plural_headers()) { std::string u; for (char c : "Plural-Forms:" + h) if (c != ' ') u += c; full |= u == t; } }
  if (static_cast<bool>(p) != full) x.fail("from_string(" + qq(s) + ") gives " + (p ? "a rule" : "none")); for (int n : {INT_MIN, INT_MIN + 1, -100, -1, 0, 1, INT_MAX}) { unsigned g = p.get_plural(n); if (p ? g >= p.get_nplural() : g != 0 || p.get_nplural() != 0) x.fail("the rule " + qq(s) + " gives form " + std::to_string(g) + " for " + std::to_string(n)); } if (p != p || !(p == PluralForms::from_string(s))) x.fail("comparison of " + qq(s)); x.state(s);
}
// ---- converters ----
const Strings& charsets() { static const Strings v = {"", " ", "UTF-8", "utf-8", std::string("UTF-8\0x", 7), std::string("\0", 1), "UTF-8//IGNORE", "UTF-8//TRANSLIT", "ISO-8859-1//TRANSLIT", "//", "/", "ISO-8859-1", "iso-8859-1", std::string(10000, 'A'), "\xff", "UTF-8,", "wchar_t", "UTF-16", "a/b/c", "UTF-7", "ISO-2022-JP", "%s%n", "UTF-8 ", "GB18030", "../../../UTF-8"}; return v; }
std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
void converters(Ctx& x) {
  static const Strings T = {"", "plain", std::string("\0", 1), std::string("a\0b", 3), "\xff", "a\xc3", "\xc3\xa9\xe6\x97\xa5", "\x1b$B", std::string(20000, 'z'), std::string(999, '\xe9'), std::string(3, '\0'), "\xef\xbb\xbf", "\xfe\xff", "~{", "+", "\xed\xa0\x80"};
  std::string from = charsets()[static_cast<size_t>(x.choose(static_cast<int>(charsets().size())))], to = charsets()[static_cast<size_t>(x.choose(static_cast<int>(charsets().size())))]; int how = x.choose(2); std::string h = "conversion from " + qq(from) + " to " + qq(to); x.note(h);
  std::string f = upper(from).c_str(), t = upper(to).c_str(); bool same = upper(from) == upper(to); iconv_t cd = ::iconv_open(t.c_str(), f.c_str()); bool known = cd != reinterpret_cast<iconv_t>(-1); tinygettext::IConv c("KOI8-R", "UTF-8"); std::unique_ptr<tinygettext::IConv> n; bool threw = false;
  try { if (how) n.reset(new tinygettext::IConv(from, to)); else c.set_charsets(from, to); } catch (std::runtime_error& e) { threw = true; if (std::string(e.what()).empty()) x.fail(h + ": an exception without a text"); } catch (std::exception& e) { x.fail(h + ": an exception of another kind: " + e.what()); } x.step();
  if (threw == (same || known)) { if (known) ::iconv_close(cd); x.fail(h + (threw ? " is refused, but available" : " is accepted, but not available")); }
  tinygettext::IConv& u = n ? *n : c; if (threw && how) { x.state(h); return; }
  for (auto& s : T) { std::string g; try { g = u.convert(s); } catch (std::exception& e) { x.fail(h + " of " + qq(s) + " throws " + e.what()); } x.step(); if (threw) continue; if (same) { if (g != s) x.fail(h + " of " + qq(s) + " gives " + qq(g)); continue; }
    std::string out(s.size() * 16 + 64, '\0'); char* ip = const_cast<char*>(s.data()); size_t il = s.size(); char* op = &out[0]; size_t ol = out.size(); ::iconv(cd, nullptr, nullptr, nullptr, nullptr); size_t r = ::iconv(cd, &ip, &il, &op, &ol); if (r != static_cast<size_t>(-1)) { ::iconv(cd, nullptr, nullptr, &op, &ol); out.resize(out.size() - ol); if (g != out) { ::iconv_close(cd); x.fail(h + " of " + qq(s) + " gives " + qq(g) + ", expected " + qq(out)); } } }
  if (known) ::iconv_close(cd); try { u.set_charsets("ISO-8859-1", "UTF-8"); if (u.convert("\xe9") != "\xc3\xa9") x.fail(h + ": the converter is of no more use afterwards"); } catch (std::exception& e) { x.fail(h + ": afterwards the converter throws " + e.what()); } x.state(h);
}
// ---- files ----
std::unique_ptr<std::istream> stream(int k, const std::string& text) {
  std::unique_ptr<std::istream> s; switch (k) { case 0: s.reset(new std::istringstream(text)); break; case 1: s.reset(new std::istringstream(text)); s->setstate(std::ios::failbit); break; case 2: s.reset(new std::istringstream(text)); s->setstate(std::ios::badbit); break; case 3: s.reset(new std::istringstream(text)); s->setstate(std::ios::eofbit); break; case 4: s.reset(new std::istream(nullptr)); break; case 5: s.reset(new std::ifstream("/nonexistent/file")); break; case 6: s.reset(new std::ifstream("/")); break; case 7: s.reset(new std::ifstream); break; default: s.reset(new std::istringstream(text)); s->seekg(0, std::ios::end); break; } return s;
}
void files(Ctx& x) {
  static const Strings T = {"msgid \"a\"\nmsgstr \"A\"\n", "", std::string("\0", 1), std::string("msgid \"a\0b\"\nmsgstr \"A\"\n", 23), "msgid \"a\"", "\xef\xbb\xbf", "\xef\xbb", "\n", "bad", "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=\\n\"\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=\xff\\n\"\n"};
  int k = x.choose(9), t = x.choose(static_cast<int>(T.size())); std::string name = any(x), cs = odd()[static_cast<size_t>(x.choose(5))]; if (cs == "a") cs = "UTF-8"; bool fuzzy = x.choose(2); std::string how = "parse(" + qq(name) + ", stream " + std::to_string(k) + " of text " + std::to_string(t) + ", dictionary in " + qq(cs) + ")"; x.note(how);
  Dictionary d(cs); d.add_translation("kept", "K"); d.add_translation("", "empty"); std::unique_ptr<std::istream> in = stream(k, T[static_cast<size_t>(t)]); try { POParser::parse(name, *in, d, fuzzy); } catch (std::runtime_error&) {} catch (std::exception& e) { x.fail(how + " throws " + e.what()); } x.step();
  Snap s = snap(d); if (!s.plain.count("kept") || s.plain["kept"] != Strings{"K"} || d.translate("kept") != "K") x.fail(how + " changes another message"); if (k > 0 && k != 6 && s.plain.size() != 2) x.fail(how + " finds messages where nothing can be read\n" + show(s)); if (k == 0 && t == 0 && cs == "UTF-8" && d.translate("a") != "A") x.fail(how + ": a translates to " + qq(d.translate("a"))); x.state(how);
}
void real_files(Ctx& x) {
  static const Strings D = {"", "/", ".", "..", "/dev/null", "/nonexistent", std::string(300, 'x'), std::string(5000, 'y'), std::string("/tmp\0x", 6), "\xff", "/proc/self", "//", "/tmp/", " ", std::string("\0", 1), "/dev/null/x"}; std::string p = D[static_cast<size_t>(x.choose(static_cast<int>(D.size())))]; int f = x.choose(3); std::string how = (f ? f == 1 ? "open_file(" : "manager for directory (" : "open_directory(") + qq(p) + ")"; x.note(how); UnixFileSystem fs;
  try { if (f == 0) { for (auto& n : fs.open_directory(p)) if (n.empty() || n.find('/') != std::string::npos) x.fail(how + " lists " + qq(n)); } else if (f == 1) { auto in = fs.open_file(p); if (in) { std::string l; for (int i = 0; i < 3 && std::getline(*in, l); ++i) {} } }
    else { DictionaryManager m; m.add_directory(p); m.set_language(Language::from_spec("de")); try { if (!snap(m.get_dictionary()).plain.empty()) x.fail(how + " has messages"); } catch (std::runtime_error&) {} try { m.get_languages(); } catch (std::runtime_error&) {} m.remove_directory(p); if (!snap(m.get_dictionary()).plain.empty() || !m.get_languages().empty()) x.fail(how + " has messages or languages after it was removed"); } } catch (std::runtime_error&) { if (f == 1) x.fail(how + " throws"); } catch (std::exception& e) { x.fail(how + " throws " + e.what()); } x.step(); x.state(how);
}
// any file names in a listing, any names of directories
void listings(Ctx& x, int max) {
  auto f = std::make_shared<Files>(); static const Strings P = {"p", "", "/", std::string("\0", 1), std::string(3000, 'd')}; std::string p = P[static_cast<size_t>(x.choose(5))]; bool solid = p == "p"; std::string n = word(x, std::string("dE_@.p\0\xff/", 9), solid ? max : 1); int tail = x.choose(3); n += tail == 0 ? ".po" : tail == 1 ? "" : "po"; bool second = x.choose(2);
  put(*f, p, n); if (second && n != "de.po") put(*f, p, "de.po"); std::string how = "directory " + qq(p) + " with the file " + qq(n) + (second ? " and de.po" : ""); x.note(how); DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f))); m.add_directory(p); Path path(1, p);
  try { std::set<std::string> want, got; for (auto& e : f->dirs[p]) if (is_po(e.first)) { Language l = denotes(e.first); if (l) want.insert(l.str()); } for (auto& l : m.get_languages()) got.insert(l.str()); if (got != want) x.fail(how + ": available are " + std::to_string(got.size()) + " languages instead of " + std::to_string(want.size()));
    for (const char* l : {"de", "de_DE", "en"}) { Language q = Language::from_env(l); Dictionary& d = m.get_dictionary(q); x.step(); std::string g = d.translate("who"); auto ok = best(f->dirs[p], q); if (ok.empty() && q.get_country().size()) ok = best(f->dirs[p], Language::from_spec(q.get_language())); bool right = ok.empty() ? g == "who" : false; for (auto& o : ok) right |= g == mark(p, o); if (!right) x.fail(how + ": request " + l + " gives " + qq(g)); }
    m.set_charset(odd()[5]); Dictionary& d = m.get_dictionary(Language::from_spec("de")); if (d.get_charset() != odd()[5] || d.translate("none") != "none") x.fail(how + ": a character set that does not exist"); m.remove_directory(odd()[3]); m.remove_directory("unknown"); got.clear(); for (auto& l : m.get_languages()) got.insert(l.str()); if (got != want) x.fail(how + ": removing unknown directories changes the languages"); m.remove_directory(p); m.remove_directory(p); if (!m.get_languages().empty()) x.fail(how + ": languages without a directory"); } catch (std::exception& e) { x.fail(how + " throws " + e.what()); } x.state(how);
}
void requests(Ctx& x) { // every known language, of a manager with and without files, and no language at all
  int n = 0; for (auto& r : ref::LANGS) { (void)r; ++n; } int k = x.choose(n + 1), st = x.choose(3); auto f = std::make_shared<Files>(); Language l = k < n ? Language::from_spec(ref::LANGS[k].l, ref::LANGS[k].c, ref::LANGS[k].m) : Language(); std::string how = "request for " + qq(l.str()) + " in state " + std::to_string(st); x.note(how); if (st) put(*f, "p", (st == 1 ? l.get_language() : l.str()) + ".po"); DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f))); m.add_directory("p");
  try { m.set_language(l); if (m.get_language() != l) x.fail(how + ": the language is " + m.get_language().str()); Dictionary& d = m.get_dictionary(); bool found = st && l; std::string g = d.translate("who"); if ((g != "who") != found) x.fail(how + " gives " + qq(g)); m.set_language(Language()); if (m.get_dictionary().translate("who") != "who") x.fail(how + ": without a language there is a translation"); m.set_language(l); if (m.get_dictionary().translate("who") != g) x.fail(how + ": not the same again"); } catch (std::exception& e) { x.fail(how + " throws " + e.what()); } x.step(4); x.state(how);
}
void logging(Ctx& x) { // the Log class itself, and call-backs taken away and given back at any time
  static std::vector<std::string> got; static auto cb = +[](const std::string& s) { got.push_back(s); }; int k = x.choose(27); auto pick = [](int i) -> Log::log_callback_t { return i == 0 ? nullptr : i == 1 ? cb : Log::log_callback_t(+[](const std::string&) {}); }; Log::set_log_info_callback(pick(k % 3)); Log::set_log_warning_callback(pick(k / 3 % 3)); Log::set_log_error_callback(pick(k / 9)); got.clear(); std::string s = any(x), t = any(x); std::string how = "call-backs " + std::to_string(k) + ", texts " + qq(s) + ", " + qq(t); x.note(how);
  { Log l(cb); l.get() << s << t; } if (got.size() != 1 || got[0] != s + t) { Logs::install(); x.fail(how + ": the message is " + (got.empty() ? "not delivered" : qq(got[0]))); } got.clear(); { Log l(cb); } if (got.size() != 1 || !got[0].empty()) { Logs::install(); x.fail(how + ": an empty message"); } got.clear();
  Dictionary d; d.add_translation(s, "1"); d.add_translation(s, t); d.translate(s + "x"); std::istringstream in("bad\n"); POParser::parse(s, in, d); size_t n = (k % 3 == 1 ? 1u : 0u) + (k / 9 == 1 ? 1u : 0u); size_t least = n + (k / 3 % 3 == 1 && t != "1" ? 1u : 0u); if (got.size() != least && !(k % 3 == 1 && got.size() == least + 1)) { size_t m = got.size(); Logs::install(); x.fail(how + ": " + std::to_string(m) + " messages instead of " + std::to_string(least)); } Logs::install(); x.step(4); x.state(how);
}
// what the default call-back makes of any text, on its way to standard error
std::string on_stderr(const std::function<void()>& f) {
  static int mem = memfd_create("stderr", 0); if (ftruncate(mem, 0)) {} lseek(mem, 0, SEEK_SET); std::cerr.flush(); fflush(stderr); int old = dup(2); dup2(mem, 2); try { f(); } catch (...) { dup2(old, 2); close(old); throw; } std::cerr.flush(); fflush(stderr); dup2(old, 2); close(old); std::string s(static_cast<size_t>(lseek(mem, 0, SEEK_END)), 0); if (pread(mem, &s[0], s.size(), 0) != static_cast<ssize_t>(s.size())) s = "?"; return s;
}
void default_callback(Ctx& x) {
  std::string s = any(x), t = any(x), u = x.choose(2) ? "%s%n%x" : ""; int how = x.choose(2); s += u; std::string h = std::string("default call-back, texts ") + qq(s) + ", " + qq(t); x.note(h); Log::log_callback_t cb = &Log::default_log_callback; Log::set_log_info_callback(cb); Log::set_log_warning_callback(cb); Log::set_log_error_callback(cb); std::string g;
  if (how) { g = on_stderr([&] { Log l(cb); l.get() << s << t; }); Logs::install(); if (g.size() < s.size() + t.size() || g.substr(g.size() - s.size() - t.size()) != s + t) x.fail(h + ": " + qq(g)); }
  else { g = on_stderr([&] { Dictionary d; d.add_translation(s, t); d.add_translation(s, "x" + t); d.translate(t + "none"); d.translate_plural(t + "none", u, 3); std::istringstream in("bad " + t + "\n\n" + header("%s%n" + u) + "\n"); try { POParser::parse(s, in, d); } catch (std::runtime_error&) {} }); Logs::install(); if (g.find(s) == std::string::npos || g.find(t) == std::string::npos) x.fail(h + ": " + qq(g)); }
  x.step(); x.state(h);
}
std::vector<mc::Exploration> all(bool t) {
  Logs::install(); std::vector<mc::Exploration> e; auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f) { e.push_back({n, b, f}); e.back().max_seconds = t ? 3000 : 400; e.back().shard_depth = 3; };
  int a = t ? 6 : 5, b = t ? 5 : 4, c = t ? 5 : 3; std::string od = std::to_string(odd().size());
  put("file-names", "convertFilename2Language: all names of up to " + std::to_string(a) + " of 9 characters, plain, with .po or .PO", [a](Ctx& x) { names(x, a); });
  put("languages", "from_env and from_name: all strings of up to " + std::to_string(b) + " of 9 characters, also behind a language; from_spec: 7 x 6 x 5 parts", [b](Ctx& x) { languages(x, b); });
  put("long-languages", "one of 6 characters repeated up to a million times between 11 x 11 ends", long_languages);
  put("dictionaries", "lookups and additions: " + od + " x " + od + " odd strings and contexts, 7 counts, 3 contents (one of the strings, all of them, none), 3 rules", dictionaries);
  put("fallbacks", "chains of up to 4 dictionaries, " + od + " x " + od + " odd strings, held anywhere or nowhere", fallbacks);
  put("rules", "from_string: all strings of up to 4 of 11 characters, odd strings, all known rules cut short, without a start, or with a byte put in", rules);
  put("converters", "all pairs of 25 character set names x 16 texts, constructed or configured anew", converters);
  put("files", "9 kinds of streams x 11 texts x " + od + " names x 5 character sets of the dictionary", files);
  put("real-files", "16 path names for the real file system: listing, opening, as a directory of a manager", real_files);
  put("listings", "5 directories; all file names of up to " + std::to_string(c) + " of 9 characters with one of 3 endings", [c](Ctx& x) { listings(x, c); });
  put("requests", "all known languages and none, with no file, the file of the language and its own", requests);
  put("logging", "27 settings of the call-backs x " + od + " x " + od + " texts", logging);
  put("default-callback", od + " x " + od + " texts through the default call-back to standard error, also with percent signs, directly and as diagnostics", default_callback);
  return e;
}
}
mc::Property mc::property = {"C26", "model_checking", "", {"get_dictionary(Language) is not asked for no language (asserted), a fallback is neither null nor part of a circle, call-backs given to Log are not null, a FileSystem is given"}, all};
