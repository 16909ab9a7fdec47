// C02: arbitrary input terminates, stays in bounds, and cutting a file keeps what ended before.
#include "tg.hpp"
using namespace tg;
using mc::Ctx;

namespace {
size_t volume(const Snap& s) { size_t n = 0; for (auto& e : s.plain) { n += e.first.size() + e.second.size(); for (auto& v : e.second) n += v.size(); } for (auto& e : s.ctxt) { n += e.first.first.size() + e.first.second.size() + e.second.size(); for (auto& v : e.second) n += v.size(); } return n; }
size_t count(const std::string& t, const std::string& w) { size_t n = 0; for (size_t p = t.find(w); p != std::string::npos; p = t.find(w, p + 1)) ++n; return n; }

// parses; only a runtime_error may come out; what is stored is bounded by the input
bool feed(Ctx& x, const std::string& text, Snap* out, const std::string& charset = "UTF-8") {
  Dictionary d(charset); bool threw = false;
  try { parse(text, d); } catch (std::runtime_error&) { threw = true; }
  Snap s = snap(d); x.step();
  if (s.plain.size() + s.ctxt.size() > count(text, "msgid")) x.fail("more entries than the text has:\n" + mc::quote(text, 3000) + "\n" + show(s));
  if (volume(s) > 4 * text.size() + 16) x.fail("stored " + std::to_string(volume(s)) + " bytes of " + std::to_string(text.size()) + ":\n" + mc::quote(text, 3000));
  for (auto& e : s.plain) if (e.second.empty()) x.fail("entry without any string:\n" + mc::quote(text, 3000));
  if (out) *out = s;
  return threw;
}
void total(Ctx& x, const std::string& text) {
  x.note(mc::quote(text, 3000));
  Snap a, b; bool ta = feed(x, text, &a), tb = feed(x, text, &b);
  if (ta != tb || a != b) x.fail("two runs differ on\n" + mc::quote(text, 3000) + "\n" + diff(a, b));
  x.state(a.hash() + ta);
}
const std::string H8 = header("UTF-8", "nplurals=2; plural=(n != 1);") + "\n", HB = header("big5") + "\n", HL = header("ISO-8859-1") + "\n", HS = header("ISO-2022-JP") + "\n";
const Strings& prefixes() { static const Strings v = {"", H8, HB, H8 + "msgid \"a\"\nmsgstr ", HB + "msgid \"", HL + "msgid \"a\"\nmsgid_plural \"b\"\n", "\xef\xbb\xbf", HS + "msgid \"a\"\nmsgstr \"\x1b$B", H8 + "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr["}; return v; }
void tokens(Ctx& x, int n, int np) {
  static const Strings tok = {"msgid", "msgid_plural", "msgctxt", "msgstr", "msgstr[", "0]", "9]", " ", "\t", "\"", "\n", "\r", "\\", "a", "#", "#,", "fuzzy", std::string("\0", 1), "\xa4", "\xff", "\xef\xbb\xbf", "[", "1", "\"\"", "\"x\"\n", "4000000]"};
  std::string t = prefixes()[static_cast<size_t>(x.choose(np))];
  int len = x.choose(n + 1);
  for (int i = 0; i < len; ++i) t += tok[static_cast<size_t>(x.choose(static_cast<int>(tok.size())))];
  total(x, t);
}
void lines(Ctx& x, int n) {
  static const Strings ls = {"", " ", "#", "# c", "#, fuzzy", "#: r", "#~ msgid \"o\"", "msgid \"a\"", "msgid \"\"", "msgid_plural \"as\"", "msgctxt \"c\"", "msgstr \"A\"", "msgstr \"\"", "msgstr[0] \"A\"", "msgstr[1] \"B\"", "\"more\"", "  \"in\"", "\"cut", "msgid", "msgstr \"open", "msgstr \"esc\\", "\"Content-Type: text/plain; charset=big5\\n\"", "\"Content-Type: text/plain; charset=nosuch\\n\"", "msgstr \"\xa4\"", "garbage", "msgstr[", "msgstr[5", "msgstr[5]", "msgstr[4000000] \"A\"", "msgstr[12] \"A\"", std::string("msgid \"a\0b\"", 11), "\""};
  int len = x.choose(n + 1); std::string t;
  for (int i = 0; i < len; ++i) { if (i) t += "\n"; t += ls[static_cast<size_t>(x.choose(static_cast<int>(ls.size())))]; }
  if (len && x.choose(2)) t += "\n";
  total(x, t);
}
void bytes(Ctx& x, bool thorough) {
  static const Strings pre = {"", "msgid \"", "msgid \"a\"\nmsgstr \"", "msgid \"a\"\nmsgstr \"b", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[", HB + "msgid \"", HB + "msgid \"a\"\nmsgstr \"\xa4", "#", "msgid \"a\"\nmsgstr \"b\"", "msgid", "msgctxt", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=", "msgid \"\"\nmsgstr \"Plural-Forms:"};
  static const Strings post = {"", "\n", "\"", "\"\n\n", "\\n\"\n\nmsgid \"z\"\nmsgstr \"\xa4\xa4\"\n"};
  size_t p = static_cast<size_t>(x.choose(static_cast<int>(pre.size())));
  int a = x.choose(256);
  std::string ca(1, static_cast<char>(a));
  x.note(mc::quote(pre[p] + ca));
  for (auto& e : post) { Snap s; feed(x, pre[p] + ca + e, &s); x.state(s.hash()); }
  for (int b = 0; b < 256; ++b) { std::string t = pre[p] + ca + static_cast<char>(b); for (size_t e = 0; e < (thorough ? post.size() : 3); ++e) feed(x, t + post[e], nullptr); }
}

// plural entries with any indices, in runs and with repetitions
void forms(Ctx& x, int most) {
  static const Strings head = {"", H8, HB}; std::string t = head[static_cast<size_t>(x.choose(3))] + "msgid \"a\"\nmsgid_plural \"b\"\n"; std::string s;
  int kind = x.choose(4), n = 0; auto ix = [&](int i) { t += "msgstr[" + std::to_string(i) + "] \"f\"\n"; };
  switch (kind) {
    case 0: n = 1 + x.choose(most); for (int i = 0; i < n; ++i) ix(x.choose(10)); break;            // any sequence
    case 1: { int from = x.choose(10), step = 1 + x.choose(9); n = 1 + x.choose(40); for (int i = 0; i < n; ++i) ix((from + i * step) % 10); break; }
    case 2: { int set = x.choose(1024); for (int i = 0; i < 10; ++i) if ((set >> i) & 1) ix(i); break; }
    default: { int set = x.choose(1024); for (int i = 9; i >= 0; --i) if ((set >> i) & 1) ix(i); break; }
  }
  total(x, t); Snap a; feed(x, t + "\nmsgid \"z\"\nmsgstr \"Z\"\n", &a);
  if (a.plain.count("z") == 0 || a.plain["z"] != Strings{"Z"}) x.fail("the entry behind it is lost:\n" + t);
}
// ---- whole files: cuts, tails and one-byte changes ----
struct Block { std::string text; std::function<void(ref::Dict&)> apply; };
struct Corpus { std::string name; std::vector<Block> blocks; };
const std::vector<Corpus>& corpora() {
  static const std::vector<Corpus> v = [] {
    std::vector<Corpus> r;
    auto P = [](const std::string& id, const std::string& txt, const std::string& val) { return Block{"msgid \"" + id + "\"\nmsgstr \"" + txt + "\"\n", [=](ref::Dict& m) { m.add(id, val); }}; };
    auto C = [](const std::string& c, const std::string& id, const std::string& s) { return Block{"# note\n#: file.c:1\nmsgctxt \"" + c + "\"\nmsgid \"" + id + "\"\nmsgstr \"" + s + "\"\n", [=](ref::Dict& m) { m.add_c(c, id, s); }}; };
    auto N = [](const std::string& id, const Strings& f) { std::string t = "#, c-format\nmsgid \"" + id + "\"\nmsgid_plural \"" + id + "s\"\n"; for (size_t i = 0; i < f.size(); ++i) t += "msgstr[" + std::to_string(i) + "] \"" + f[i] + "\"\n"; return Block{t, [=](ref::Dict& m) { m.add(id, f); }}; };
    auto H = [](const std::string& cs, int ru) { return Block{"# head\n" + header(cs, ru < 0 ? "" : ref::plural_headers()[static_cast<size_t>(ru)]), [=](ref::Dict& m) { if (ru >= 0 && !m.rule) m.rule = rule(static_cast<size_t>(ru)); }}; };
    Block cont{"msgid \"\"\n\"long \"\n\"text\\n\"\nmsgstr \"\"\n\"lang\"\n\"er\\tText\"\n", [](ref::Dict& m) { m.add("long text\n", "langer\tText"); }};
    Block obs{"#~ msgid \"gone\"\n#~ msgstr \"weg\"\n", [](ref::Dict&) {}};
    r.push_back({"UTF-8", {H("UTF-8", 1), P("one", "eins", "eins"), C("ctx", "two", "zwei"), N("three", {"drei", "dreie"}), cont, obs, P("four", "vier \\\"4\\\"", "vier \"4\""), P("last", "\xc3\xbc", "\xc3\xbc")}});
    r.push_back({"ISO-8859-1", {H("ISO-8859-1", 9), P("one", "\xe9t\xe9", "\xc3\xa9t\xc3\xa9"), N("three", {"\xe4", "b", "\xe7"}).text.empty() ? obs : Block{"msgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"\xe4\"\nmsgstr[2] \"\xe7\"\nmsgstr[1] \"b\"\n", [](ref::Dict& m) { m.add("n", Strings{"\xc3\xa4", "b", "\xc3\xa7"}); }}, P("x", "y\\\\", "y\\"), cont}});
    r.push_back({"BIG5", {H("big5", -1), P("one", "\xa4\xa4\xa4\xe5", "\xe4\xb8\xad\xe6\x96\x87"), P("two", "\xa5\x5c\xaf\xe0", "\xe5\x8a\x9f\xe8\x83\xbd"), P("q", "a", "a"), cont}});
    r.push_back({"no header", {P("one", "eins", "eins"), C("", "one", "uno"), N("p", {"a"}), obs, P("two", "zwei", "zwei")}});
    r.push_back({"ISO-2022-JP", {H("ISO-2022-JP", 0), P("one", "\x1b$B&\"\x1b(B", "?"), P("two", "x", "x")}});
    r.back().blocks[1] = Block{"msgid \"one\"\nmsgstr \"\x1b$B$\x22\x1b(B\"\n", [](ref::Dict&) {}};   // a raw quote byte inside a shifted sequence ends the string: only its neighbours are judged
    return r; }();
  return v;
}
struct Whole { std::string text; std::vector<size_t> ends; ref::Dict all; };
Whole whole(const Corpus& c, int crlf, const std::vector<std::string>* seps = nullptr) {
  Whole w; (void)seps;
  for (size_t i = 0; i < c.blocks.size(); ++i) { std::string b = c.blocks[i].text + "\n"; if (crlf) { std::string o; for (char ch : b) { if (ch == '\n') o += '\r'; o += ch; } b = o; } w.text += b; w.ends.push_back(w.text.size()); }
  return w;
}
void cut(Ctx& x, bool thorough) {
  static const Strings tails = {"", "\n", std::string("\0", 1), "\xff", "\"", "\\", "msgid", "\n\nmsgid \"t\"\nmsgstr \"t\"", "\n#, fuzzy"};
  const Corpus& c = corpora()[static_cast<size_t>(x.choose(static_cast<int>(corpora().size())))];
  int crlf = x.choose(2);
  Whole w = whole(c, crlf);
  size_t at = static_cast<size_t>(x.choose(static_cast<int>(w.text.size()) + 1));
  size_t nt = thorough ? tails.size() : 6;
  x.note(c.name + (crlf ? " CRLF" : "") + " cut after byte " + std::to_string(at) + " of " + std::to_string(w.text.size()));
  for (size_t k = 0; k < nt; ++k) {
    std::string t = w.text.substr(0, at) + tails[k];
    Snap s; bool threw = feed(x, t, &s);
    ref::Dict m; size_t done = 0; while (done < w.ends.size() && w.ends[done] <= at) { c.blocks[done].apply(m); ++done; }
    if (threw && done) x.fail("exception after " + std::to_string(done) + " complete entries:\n" + mc::quote(t, 3000));
    if (threw) continue;
    Snap want = snap_of(m);
    for (auto& e : want.plain) { auto i = s.plain.find(e.first); if (i == s.plain.end() || i->second != e.second) x.fail("entry " + mc::quote(e.first) + " that ended before the cut is " + (i == s.plain.end() ? "lost" : show(i->second)) + " in:\n" + mc::quote(t, 3000)); }
    for (auto& e : want.ctxt) { auto i = s.ctxt.find(e.first); if (i == s.ctxt.end() || i->second != e.second) x.fail("contextual entry " + mc::quote(e.first.second) + " that ended before the cut is lost or changed in:\n" + mc::quote(t, 3000)); }
    if (done >= 1 && m.rule && (s.nplural != want.nplural || s.sig != want.sig)) x.fail("plural rule lost in:\n" + mc::quote(t, 3000));
    x.state(s.hash() + at);
  }
}
void mutate(Ctx& x, bool thorough) {
  const Corpus& c = corpora()[static_cast<size_t>(x.choose(static_cast<int>(corpora().size())))];
  Whole w = whole(c, 0);
  size_t at = static_cast<size_t>(x.choose(static_cast<int>(w.text.size())));
  static const std::string some = std::string("\0\t\n\r \"#\\,[]0a\x7f\x80\xa4\xfe\xff_~m\x1b", 22);
  x.note(c.name + " changed at byte " + std::to_string(at));
  Snap s;
  auto one = [&](const std::string& t) { feed(x, t, &s); x.state(s.hash()); };
  if (thorough) for (int b = 0; b < 256; ++b) { std::string t = w.text; t[at] = static_cast<char>(b); one(t); }
  else for (char b : some) { std::string t = w.text; t[at] = b; one(t); }
  for (char b : some) one(w.text.substr(0, at) + b + w.text.substr(at));
  one(w.text.substr(0, at) + w.text.substr(at + 1));
  for (size_t len : {2u, 3u, 7u, 20u}) if (at + len <= w.text.size()) { one(w.text.substr(0, at) + w.text.substr(at + len)); one(w.text.substr(0, at + len) + w.text.substr(at)); }
}
// character set names, on both sides
void charsets(Ctx& x) {
  static const Strings cs = {"UTF-8", "utf-8", "UTF8", "", "CHARSET", "nosuch", "ISO-8859-1", "iso-8859-15", "BIG5", "big5", "Big5-HKSCS", "EUC-JP", "SHIFT_JIS", "UTF-16", "UTF-16LE", "UTF-32", "UTF-7", "ISO-2022-JP", "ISO-2022-KR", "CP1258", "GB18030", "EBCDIC-US", "//", "/", "UTF-8//TRANSLIT", "ASCII//IGNORE", "UTF-8 ", " UTF-8", "UTF-8;x", ",", std::string(300, 'A'), std::string(70000, 'B'), "UTF-8\\t", "\\\\", std::string("A\0B", 3), "\xff", "INTERNAL", "UCS-4", "WCHAR_T"};
  static const Strings to = {"UTF-8", "ISO-8859-1", "UTF-16", "UTF-32", "UTF-7", "nosuch", "", "BIG5", "ISO-2022-JP", "ASCII//TRANSLIT"};
  std::string a = cs[static_cast<size_t>(x.choose(static_cast<int>(cs.size())))], b = to[static_cast<size_t>(x.choose(static_cast<int>(to.size())))];
  x.note(mc::quote(a, 60) + " to " + mc::quote(b, 60));
  std::string body = "\nmsgid \"a\"\nmsgstr \"plain\"\n\nmsgid \"b\"\nmsgstr \"\xc3\xa9\xa4\xa4\xff\"\n\nmsgid \"c\"\nmsgstr \"\"\n\"x\\\"\\n\"\n";
  for (const char* pre : {"text/plain; charset=", "text/plain;charset=", "text/html; charset=", ""}) {
    Dictionary d(b);
    std::string t = std::string("msgid \"\"\nmsgstr \"\"\n\"Content-Type: ") + pre + a + "\\n\"\n" + body;
    try { parse(t, d); } catch (std::runtime_error&) {}
    Snap s = snap(d); x.step(); x.state(s.hash());
    if (volume(s) > 16 * t.size() + 64) x.fail("stored " + std::to_string(volume(s)) + " bytes of " + std::to_string(t.size()));
    // the dictionary stays usable
    Dictionary e; parse(H8 + "msgid \"k\"\nmsgstr \"v\"\n", e); if (e.translate("k") != "v") x.fail("later parse affected");
  }
}
// long tokens and unusual but finite streams
void big(Ctx& x) {
  static const Strings unit = {"\"", "\\", "a", "#", " ", "\n", "msgid \"a\"\n", "\"x\"\n", "\xa4", "msgid \"\"\nmsgstr \"\"\n\n", "#, fuzzy\n", "msgctxt \"c\"\n", "msgstr[0] \"\"\n", "\r\n", std::string("\0", 1), "\"\"", "\\\"", "9", "-1", "[", "msgstr[9] \"z\"\n"};
  static const int times[] = {1, 2, 3, 100, 255, 256, 1000, 4095, 4096, 20000};
  std::string p = prefixes()[static_cast<size_t>(x.choose(static_cast<int>(prefixes().size())))];
  std::string u = unit[static_cast<size_t>(x.choose(static_cast<int>(unit.size())))]; int n = times[x.choose(10)];
  x.note(mc::quote(p, 80) + " then " + std::to_string(n) + " x " + mc::quote(u));
  std::string t = p; for (int i = 0; i < n; ++i) t += u;
  Snap s; feed(x, t, &s); feed(x, t + "\n", nullptr); feed(x, t + "\"", nullptr); feed(x, t + "] \"x\"\n", nullptr); x.state(s.hash() + mc::hash(t));
}
std::vector<mc::Exploration> all(bool t) {
  Logs::silence();
  std::vector<mc::Exploration> e;
  int tn = t ? 5 : 4;
  e.push_back({"lines", "all sequences of at most " + std::to_string(tn) + " of 32 lines, with and without final line end", [tn](Ctx& x) { lines(x, tn); }}); e.back().shard_depth = 3; e.back().max_seconds = 3000;
  int kn = t ? 5 : 3;
  e.push_back({"tokens", "all strings of at most " + std::to_string(kn) + " of 26 tokens after " + std::to_string(prefixes().size()) + " prefixes", [kn](Ctx& x) { tokens(x, kn, 9); }}); e.back().shard_depth = 3; e.back().max_seconds = 3000;
  if (!t) { e.push_back({"tokens-long", "all strings of at most 4 of 26 tokens after 2 prefixes", [](Ctx& x) { tokens(x, 4, 2); }}); e.back().shard_depth = 3; }
  e.push_back({"bytes", "all one- and two-byte sequences at 13 places of a file, with 3 to 5 continuations", [t](Ctx& x) { bytes(x, t); }}); e.back().max_seconds = 2000;
  e.push_back({"cut", "5 files, LF and CRLF, cut at every byte, with 6 to 9 tails", [t](Ctx& x) { cut(x, t); }}); e.back().shard_depth = 3;
  e.push_back({"mutate", "5 files, every byte changed, inserted, removed, and stretches removed or doubled", [t](Ctx& x) { mutate(x, t); }}); e.back().max_seconds = 2000;
  int fm = t ? 6 : 4;
  e.push_back({"forms", "plural entries: all sequences of at most " + std::to_string(fm) + " of 10 indices, all runs of at most 40 with any start and stride, all sets in both orders", [fm](Ctx& x) { forms(x, fm); }}); e.back().shard_depth = 3; e.back().max_seconds = 1500;
  e.push_back({"charsets", "39 declared x 10 requested character sets x 4 spellings of the header", charsets});
  e.push_back({"big", "21 units repeated up to 20000 times after 9 prefixes", big});
  return e;
}
}
mc::Property mc::property = {"C02", "model_checking", "", {"AddressSanitizer and UndefinedBehaviorSanitizer report invalid accesses", "15 s without progress on one small input counts as not terminating"}, all};
