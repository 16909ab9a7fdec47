// C20: several PO files one after another into the same dictionary, against a plain merge.
#include <deque>
#include <iconv.h>
#include "tg.hpp"
using namespace tg;
using mc::Ctx;

namespace {
std::string conv(const std::string& from, const std::string& to, const std::string& s) {
  if (from == to) return s;
  ::iconv_t cd = ::iconv_open(to.c_str(), from.c_str()); if (cd == reinterpret_cast<::iconv_t>(-1)) throw std::runtime_error("no conversion from " + from + " to " + to);
  std::string b(s.size() * 12 + 64, 0); char* in = const_cast<char*>(s.data()); size_t il = s.size(); char* out = &b[0]; size_t ol = b.size();
  size_t k = ::iconv(cd, &in, &il, &out, &ol); ::iconv(cd, nullptr, nullptr, &out, &ol); ::iconv_close(cd);
  if (k == static_cast<size_t>(-1)) throw std::runtime_error("driver: text not convertible from " + from + " to " + to);
  b.resize(b.size() - ol); return b;
}
// one definition: context or none, id, plural forms or a single string (in UTF-8)
struct Def { const char* ctx; const char* id; Strings v; bool plural; };
struct File { std::string name, text; std::vector<Def> defs; int rule = -1; bool throws = false; };
std::string glyph(const std::string& cs, int latin) { // a text the file's set can express, and the target too when it is Latin-1 (1) or East Asian (2)
  if (latin == 2) return cs == "BIG5" || cs == "UTF-8" || cs == "ISO-2022-JP" ? "\xe5\x8a\x9f\xe6\x97\xa5\xe5\x8a\x9f" : "o";
  if (latin) return cs == "ISO-8859-1" || cs == "UTF-8" ? "\xc3\xa9" : "e'";
  return cs == "ISO-8859-1" ? "\xc3\xa9\xc3\xbf" : cs == "KOI8-R" ? "\xd0\xb6\xd0\xaf" : cs == "BIG5" ? "\xe5\x8a\x9f\xe6\x97\xa5" : cs == "ISO-2022-JP" ? "\xe6\x97\xa5\xe6\x9c\xac" : cs == "UTF-16" ? "?" : "\xc3\xa9\xe6\x97\xa5\xd0\xb6";
}
std::string bytes(const std::string& cs, const std::string& utf8) { // quoted, in the set of the file
  std::string b = conv("UTF-8", cs, utf8), o; bool big = cs == "BIG5", esc = false;
  for (size_t i = 0; i < b.size(); ++i) {
    unsigned char c = static_cast<unsigned char>(b[i]);
    if (c == 27) { esc = i + 1 < b.size() && b[i + 1] == '$'; o += b[i]; continue; }
    if (big && c >= 0x81 && i + 1 < b.size()) { o += b[i]; o += b[++i]; }
    else if (!esc && (c == '"' || c == '\\')) { o += '\\'; o += b[i]; } else o += b[i];
  }
  return "\"" + o + "\"";
}
std::string entry(const std::string& cs, const Def& d) {
  std::string o = "\n"; if (d.ctx) o += std::string("msgctxt \"") + d.ctx + "\"\n"; o += std::string("msgid \"") + d.id + "\"\n";
  if (!d.plural) return o + "msgstr " + bytes(cs, d.v[0]) + "\n";
  o += std::string("msgid_plural \"") + d.id + "s\"\n"; for (size_t i = 0; i < d.v.size(); ++i) o += "msgstr[" + std::to_string(i) + "] " + bytes(cs, d.v[i]) + "\n"; return o;
}
const char* const R2 = "nplurals=2; plural=(n != 1);"; const char* const RF = "nplurals=2; plural=(n > 1);"; const char* const RP = "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);";
size_t index_of(const std::string& h) { for (size_t i = 0; i < ref::plural_headers().size(); ++i) if (ref::plural_headers()[i] == h) return i; throw std::runtime_error("rule " + h); }

// every file defines shared messages and one of its own
std::vector<File> library(int latin) {
  std::vector<File> r;
  auto make = [&](const std::string& name, const std::string& cs, const std::string& plural, int forms, bool head, int set) {
    File f; f.name = name; std::string g = name + glyph(cs, latin); static std::deque<std::string>* own = new std::deque<std::string>; own->push_back("only " + name);
    if (head) f.text = header(cs == "UTF-8" && set == 9 ? "" : cs, plural);
    if (set & 1) f.defs.push_back({nullptr, "who", {g}, false});
    if (set & 2) f.defs.push_back({"c", "who", {"c" + g}, false});
    if (set & 4) { Strings v; for (int i = 0; i < forms; ++i) v.push_back(std::to_string(i) + g); f.defs.push_back({nullptr, "n", v, true}); }
    if (set & 8) { Strings v; for (int i = 0; i < forms; ++i) v.push_back("k" + std::to_string(i) + g); f.defs.push_back({"c", "n", v, true}); }
    f.defs.push_back({nullptr, own->back().c_str(), {g + g}, false});
    for (auto& d : f.defs) f.text += entry(cs, d);
    if (!plural.empty()) for (size_t i = 0; i < ref::plural_headers().size(); ++i) if (ref::plural_headers()[i] == plural) f.rule = static_cast<int>(i);
    r.push_back(f); return r.size() - 1;
  };
  make("utf8", "UTF-8", R2, 2, true, 15);
  make("latin1", "ISO-8859-1", "", 2, true, 5);
  make("koi8", "KOI8-R", RP, 3, true, 10);
  make("big5", "BIG5", "", 3, true, 7);
  make("jis", "ISO-2022-JP", RF, 2, true, 13);
  { size_t i = make("bom", "UTF-8", RP, 3, true, 9); r[i].text = "\xef\xbb\xbf" + r[i].text; }
  make("headless", "UTF-8", "", 1, false, 15);
  { File f; f.name = "nosuch"; f.throws = true; f.text = header("NO-SUCH-SET") + "\nmsgid \"who\"\nmsgstr \"bad\"\n\nmsgid \"only nosuch\"\nmsgstr \"bad\"\n"; r.push_back(f); }
  { size_t i = make("unknown-rule", "UTF-8", "nplurals=9; plural=n;", 2, true, 3); r[i].rule = -1; }
  { size_t i = make("crlf", "ISO-8859-1", RF, 2, true, 12); std::string t; for (char c : r[i].text) { if (c == '\n') t += '\r'; t += c; } r[i].text = t; }
  { size_t i = make("malformed", "UTF-8", "", 2, true, 6); r[i].text += "\nmsgid \"who\"\nmsgstr \"unterminated\n\nmsgid \"x\nmsgstr\n\nmsgstr \"lonely\"\n\nmsgid \"tail\"\nmsgstr \"T\"\n"; r[i].defs.push_back({nullptr, "tail", {"T"}, false}); }
  { size_t i = make("fuzzy", "UTF-8", "", 2, true, 0); r[i].text += "\n#, fuzzy\n" + entry("UTF-8", {nullptr, "who", {"fuzzy"}, false}).substr(1); r[i].defs.push_back({nullptr, "who", {"fuzzy"}, false}); }
  { size_t i = make("empties", "KOI8-R", "", 2, true, 0); r[i].text += "\nmsgid \"who\"\nmsgstr \"\"\n\nmsgctxt \"c\"\nmsgid \"who\"\nmsgstr \"\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n"; }
  { File f; f.name = "empty"; r.push_back(f); }
  { size_t i = make("placeholder", "UTF-8", "", 2, true, 3); size_t k = r[i].text.find("UTF-8"); r[i].text.replace(k, 5, "CHARSET"); }
  { size_t i = make("two-headers", "ISO-8859-1", R2, 2, true, 1); std::string h = "\n" + header("KOI8-R", RP); Def d{nullptr, "second", {latin ? "e" : "\xd0\xb6"}, false}; r[i].text += h + entry("KOI8-R", d); r[i].defs.push_back(d); }
  { size_t i = make("late-header", "UTF-8", "", 2, false, 9); Def d{nullptr, "late", {latin ? "e" : "\xd0\xb6"}, false}; r[i].text += "\n" + header("KOI8-R", RF) + entry("KOI8-R", d); r[i].defs.push_back(d); r[i].rule = static_cast<int>(index_of(RF)); }
  { size_t i = make("big5-then-other", "BIG5", "", 2, true, 2); std::string cs = latin == 1 ? "ISO-8859-1" : "UTF-8"; Def d{nullptr, "second", {latin == 1 ? "\xc3\xa9" : "\xe6\x97\xa5"}, false}; r[i].text += "\n" + header(cs, "") + entry(cs, d); r[i].defs.push_back(d); }
  return r;
}
struct Target { std::string cs; int latin; };
const std::vector<Target>& targets() { static const std::vector<Target> v = {{"UTF-8", 0}, {"ISO-8859-1", 1}, {"UTF-16LE", 0}, {"BIG5", 2}, {"EUC-JP", 2}}; return v; }
// values that extend, shorten or vary those of the file "utf8" only slightly
std::vector<File> close_library() {
  std::vector<File> r, lib = library(0); r.push_back(lib[0]);
  const Strings ends = {"<shorter>", "<shorter by one>", " ", "s", "\xc3\xa9", lib[0].defs[0].v[0], "<blank in front>", "<upper>", "<more forms>", "<fewer forms>", "<last form differs>"};
  for (auto& end : ends) {
    File f; f.name = end; f.text = header("UTF-8", "");
    for (auto& d : lib[0].defs) if (d.id[0] != 'o') {
      Def e = d;
      for (auto& v : e.v) { if (end == "<shorter>") v = v.substr(0, d.ctx || d.plural ? 2 : 1); else if (end == "<shorter by one>") v = v.substr(0, v.size() - 2); else if (end == "<blank in front>") v = " " + v; else if (end == "<upper>") { for (char& c : v) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c); } else if (end[0] != '<') v += end; }
      if (e.plural && end == "<more forms>") e.v.push_back("more"); if (e.plural && end == "<fewer forms>") e.v.pop_back(); if (e.plural && end == "<last form differs>") e.v.back() = "last";
      f.defs.push_back(e);
    }
    for (auto& d : f.defs) f.text += entry("UTF-8", d);
    r.push_back(f);
  }
  return r;
}
const std::vector<File>& files(int latin) { static const std::vector<File> a = library(0), b = library(1), c = library(2); return latin == 2 ? c : latin ? b : a; }

void apply(ref::Dict& m, const File& f, const std::string& target) {
  if (f.throws) return;
  if (f.rule >= 0 && !m.rule) m.rule = rule(static_cast<size_t>(f.rule));
  for (auto& d : f.defs) { Strings v; for (auto& s : d.v) v.push_back(conv("UTF-8", target, s)); std::string c = d.ctx ? d.ctx : ""; if (d.plural) addp(m, d.ctx ? &c : nullptr, d.id, v); else add(m, d.ctx ? &c : nullptr, d.id, v[0]); }
}
std::string load(Dictionary& d, const File& f, const std::string& text) {
  std::istringstream in(text); bool threw = false;
  try { POParser::parse(f.name, in, d); } catch (std::runtime_error&) { threw = true; }
  if (threw && !f.throws) return f.name + ": loading throws"; return "";
}
void compare(Ctx& x, Dictionary& d, const ref::Dict& m, const std::string& log) {
  Snap s = snap(d), w = snap_of(m); x.state(s.hash()); if (s != w) x.fail(log + "\n" + diff(s, w));
  static const std::string c = "c", none = "nocontext";
  for (Cx k : {static_cast<Cx>(nullptr), &c, &none}) for (const char* id : {"who", "n", "only utf8", "absent"}) {
    if (tr(d, k, id) != m.translate(k, id)) x.fail(log + ": " + cx(k) + id + " translates to " + mc::quote(tr(d, k, id)) + ", expected " + mc::quote(m.translate(k, id)));
    for (int n : {0, 1, 2, 5, 21}) if (trp(d, k, id, "P", n) != m.plural(k, id, "P", n)) x.fail(log + ": " + cx(k) + id + " for " + std::to_string(n) + " gives " + mc::quote(trp(d, k, id, "P", n)) + ", expected " + mc::quote(m.plural(k, id, "P", n)));
  }
}
void run(Ctx& x, int most, const std::vector<File>& lib, const std::string& cs) {
  Dictionary d(cs); ref::Dict m; std::string log = "into " + cs + ":";
  for (int i = 0; i < most; ++i) {
    int k = x.choose(static_cast<int>(lib.size()) + 1); if (!k) break; auto& f = lib[static_cast<size_t>(k - 1)]; log += " " + f.name; apply(m, f, cs); x.step();
    std::string e = load(d, f, f.text); if (!e.empty()) x.fail(log + ": " + e);
  }
  x.note(log); compare(x, d, m, log);
}
void sequences(Ctx& x, int most, int from, int to) {
  auto& t = targets()[static_cast<size_t>(from + x.choose(to - from))]; run(x, most, files(t.latin), t.cs);
}
// two dictionaries of different character sets filled alternately
void alternate(Ctx& x, int most) {
  Dictionary a("UTF-8"), b("ISO-8859-1"); ref::Dict ma, mb; std::string log;
  for (int i = 0; i < most; ++i) {
    int which = x.choose(2); auto& lib = files(which); int k = x.choose(static_cast<int>(lib.size()) + 1); if (!k) break; auto& f = lib[static_cast<size_t>(k - 1)];
    log += which ? " B:" : " A:"; log += f.name; apply(which ? mb : ma, f, which ? "ISO-8859-1" : "UTF-8"); x.step();
    std::string e = load(which ? b : a, f, f.text); if (!e.empty()) x.fail(log + ": " + e);
  }
  x.note(log); compare(x, a, ma, log + " (A)"); compare(x, b, mb, log + " (B)");
}
// a stream that throws or breaks at some byte, between two other files
class Breaking : public std::streambuf {
  const std::string& s; size_t at; bool thr; bool done = false; char c = 0; size_t p = 0;
  int_type underflow() override { if (p == at) { if (thr && !done) { done = true; throw std::runtime_error("broken stream"); } return traits_type::eof(); } if (p >= s.size()) return traits_type::eof(); c = s[p++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
public:
  Breaking(const std::string& t, size_t k, bool th) : s(t), at(k), thr(th) {}
};
void broken(Ctx& x) {
  auto& t = targets()[static_cast<size_t>(x.choose(2))]; auto& lib = files(t.latin);
  int a = x.choose(static_cast<int>(lib.size())), b = x.choose(static_cast<int>(lib.size())); int mode = x.choose(3);
  auto &fa = lib[static_cast<size_t>(a)], &fb = lib[static_cast<size_t>(b)]; size_t at = static_cast<size_t>(x.choose(static_cast<int>(fb.text.size()) + 1));
  std::string log = "into " + t.cs + ": " + fa.name + ", " + fb.name + (mode == 0 ? " ending" : mode == 1 ? " broken" : " throwing") + " at byte " + std::to_string(at); x.note(log);
  Dictionary d(t.cs); ref::Dict m; apply(m, fa, t.cs); std::string e = load(d, fa, fa.text); if (!e.empty()) x.fail(log + ": " + e); x.step(2);
  Snap before = snap(d);
  { Breaking buf(fb.text, at, mode != 0); std::istream in(&buf); if (mode == 2) in.exceptions(std::ios::badbit); try { POParser::parse(fb.name, in, d); } catch (std::runtime_error&) {} catch (std::ios_base::failure&) {} }
  Snap s = snap(d); x.state(s.hash());
  // whatever arrived of the second file, the first one's messages it does not define are intact
  for (auto& v : before.plain) { bool over = false; for (auto& f : fb.defs) over |= !f.ctx && f.id == v.first; if (over || (fb.throws && v.first == "who")) continue; auto i = s.plain.find(v.first); if (i == s.plain.end() || i->second != v.second) x.fail(log + ": " + v.first + " was damaged\n" + diff(s, before)); }
  for (auto& v : before.ctxt) { bool over = false; for (auto& f : fb.defs) over |= f.ctx && f.id == v.first.second; if (over) continue; auto i = s.ctxt.find(v.first); if (i == s.ctxt.end() || i->second != v.second) x.fail(log + ": contextual " + v.first.second + " was damaged\n" + diff(s, before)); }
  if (before.nplural && before.sig != s.sig) x.fail(log + ": the plural rule changed");
  // and the next file loads fully, as into the dictionary as it is now
  for (int c : {0, 1, 2, 4}) {
    auto& fc = lib[static_cast<size_t>(c)]; ref::Dict w; Snap now = snap(d); w.plain = now.plain; for (auto& v : now.ctxt) w.ctxt[v.first.first][v.first.second] = v.second;
    apply(w, fc, t.cs); e = load(d, fc, fc.text); x.step(); if (!e.empty()) x.fail(log + ", then " + e); Snap got = snap(d), want = snap_of(w);
    if (now.nplural) { want.nplural = now.nplural; want.sig = now.sig; }
    if (got != want) x.fail(log + ", then " + fc.name + "\n" + diff(got, want));
  }
}
std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  std::vector<mc::Exploration> e; int m = t ? 5 : 4, al = t ? 4 : 3;
  e.push_back({"sequences", "all sequences of at most " + std::to_string(m) + " of 17 files into one dictionary of 3 character sets", [m](Ctx& x) { sequences(x, m, 0, 3); }}); e.back().max_seconds = 3000; e.back().shard_depth = 3;
  e.push_back({"east-asian", "all sequences of at most " + std::to_string(m - 1) + " of 17 files into one dictionary in BIG5 or EUC-JP", [m](Ctx& x) { sequences(x, m - 1, 3, 5); }}); e.back().max_seconds = 3000; e.back().shard_depth = 3;
  int cl = t ? 5 : 4;
  e.push_back({"close-values", "all sequences of at most " + std::to_string(cl) + " of 12 files whose values differ from each other by an extension, a cut, a blank, case or a form", [cl](Ctx& x) { static const std::vector<File> lib = close_library(); run(x, cl, lib, "UTF-8"); }}); e.back().max_seconds = 3000; e.back().shard_depth = 3;
  e.push_back({"alternate", "all sequences of at most " + std::to_string(al) + " of 17 files, each into one of two dictionaries", [al](Ctx& x) { alternate(x, al); }}); e.back().max_seconds = 3000;
  e.push_back({"broken", "16 files then each of 17 files ending, breaking or throwing at every byte, then 4 more files, 2 character sets", broken}); e.back().max_seconds = 3000; e.back().shard_depth = 3;
  return e;
}
}
mc::Property mc::property = {"C20", "model_checking", "", {"no message is defined with plural forms in one file and without in another", "a file whose character set cannot be converted may or may not count for the messages in front of its header"}, all};
