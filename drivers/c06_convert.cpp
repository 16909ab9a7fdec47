// C06: conversion of messages against a fresh descriptor per message.
#include "tg.hpp"
#include "tinygettext/iconv.hpp"
#include <iconv.h>
using namespace tg;
using mc::Ctx;

namespace {
struct Conv { bool avail = false, ok = false; std::string out, prefix; };
std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
// a one-shot conversion with a descriptor of its own, flushed
Conv fresh(const std::string& from, const std::string& to, const std::string& text) {
  Conv r;
  if (upper(from) == upper(to)) { r.avail = r.ok = true; r.out = r.prefix = text; return r; }
  ::iconv_t cd = ::iconv_open(upper(to).c_str(), upper(from).c_str());
  if (cd == reinterpret_cast<::iconv_t>(-1)) return r;
  r.avail = true;
  std::string buf(text.size() * 12 + 64, '\0');
  char* in = const_cast<char*>(text.data()); size_t il = text.size(); char* out = &buf[0]; size_t ol = buf.size();
  size_t k = ::iconv(cd, &in, &il, &out, &ol);
  r.ok = k != static_cast<size_t>(-1) && il == 0;
  r.prefix = buf.substr(0, buf.size() - ol);
  ::iconv(cd, nullptr, nullptr, &out, &ol);
  r.out = buf.substr(0, buf.size() - ol);
  ::iconv_close(cd);
  return r;
}
const Strings& sources() { static const Strings v = {"UTF-8", "ISO-8859-1", "BIG5", "CP1258", "ISO-2022-JP", "EUC-JP", "UTF-16", "UTF-7", "TCVN5712-1", "BIG5-HKSCS", "ISO-2022-KR", "UTF-32LE", "KOI8-R", "ASCII", "ISO-8859-15", "IBM930"}; return v; }
const Strings& targets() { static const Strings v = {"UTF-8", "ISO-8859-1", "UTF-16", "UTF-32", "UTF-7", "ISO-2022-JP", "CP1258", "BIG5-HKSCS", "UTF-16LE", "GB18030", "BIG5", "ISO-2022-KR", "EUC-JISX0213", "IBM930", "TSCII"}; return v; }
const Strings& unicode() { static const Strings v = {"a", "b c", "\xc3\xa9", "a\xcc\x81", "x\xc3\xaa", "\xe1\xba\xa1", "\xc3\x8a\xcc\x84", "\xc3\x8a", "\xe6\x97\xa5\xe6\x9c\xac", "q\xe6\x97\xa5z", "\xe3\x82\xab\xe3\x82\x9a", "\xe3\x82\xab", "\xed\x95\x9c", "\xe2\x82\xac", "+-&~", "\xd0\xb6", "\xf0\x9f\x98\x80", "\xe5\x8a\x9f\xe8\x83\xbd", "o\xcc\x9b", "\xe0\xae\xb8\xe0\xaf\x8d"}; return v; }
// the messages of a source charset: the texts it can represent, in its bytes
const Strings& messages(size_t s) {
  static std::map<size_t, Strings> m; auto i = m.find(s); if (i != m.end()) return i->second;
  Strings& v = m[s];
  for (auto& u : unicode()) { Conv c = fresh("UTF-8", sources()[s], u); if (c.avail && c.ok) v.push_back(c.out); }
  return v;
}
// whether a message survives a PO file as its escaped bytes: no line feed trouble, no half-read two-byte characters
std::string po_escape(const std::string& cs, const std::string& s) {
  if (upper(cs) != "BIG5") return esc(s);
  std::string o; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = static_cast<unsigned char>(s[i]); if (c >= 0x81 && c <= 0xfe && i + 1 < s.size()) { o += s[i]; o += s[++i]; } else o += esc(std::string(1, s[i])); }
  return o;
}
bool weird(const std::string& cs, const std::string& s) { // multi-byte sets whose trail bytes look like quotes or backslashes, other than Big5
  if (upper(cs) != "BIG5-HKSCS" && upper(cs) != "IBM930") return false;
  for (char c : s) if (c == '"' || c == '\\') return true;
  return false;
}
std::string what(const std::string& f, const std::string& t, const std::string& in, const std::string& got, const std::string& want) { return mc::quote(in, 200) + " from " + f + " to " + t + " gives " + mc::quote(got, 400) + ", expected " + mc::quote(want, 400); }

// exact when convertible; otherwise at least the valid part, one error, and no effect on others
// glibc's ISO-2022-CN repeats a shift sequence when the room given ends inside of a character: the same text
bool same_text(const std::string& t, const std::string& got, const std::string& want) {
  if (got == want) return true; if (upper(t).compare(0, 11, "ISO-2022-CN") != 0 || got.size() < want.size()) return false;
  Conv a = fresh(t, "UTF-8", got + "a"), b = fresh(t, "UTF-8", want + "a"); return a.ok && b.ok && a.out == b.out;
}
void judge(Ctx& x, const std::string& f, const std::string& t, const std::string& in, const std::string& got, const Conv& w) {
  x.step(); x.state(mc::hash(got) + mc::hash(f + t));
  if (w.ok) { if (!same_text(t, got, w.out)) x.fail(what(f, t, in, got, w.out)); return; }
  if (Logs::nerr() == 0) x.fail("no error reported for invalid " + what(f, t, in, got, w.prefix));
}
void sequence(Ctx& x, int n) {
  size_t f = static_cast<size_t>(x.choose(static_cast<int>(sources().size()))), t = static_cast<size_t>(x.choose(static_cast<int>(targets().size())));
  const std::string &F = sources()[f], &T = targets()[t];
  const Strings& ms = messages(f);
  if (ms.empty() || !fresh(F, T, "").avail) { x.trivial(); return; }
  std::vector<std::string> in; for (int i = 0; i < n; ++i) { int k = x.choose(static_cast<int>(ms.size()) + (i ? 1 : 0)); if (k == static_cast<int>(ms.size())) break; in.push_back(ms[static_cast<size_t>(k)]); }
  std::string all; for (auto& s : in) all += (all.empty() ? "" : ", ") + mc::quote(s, 60);
  x.note(F + " to " + T + ": " + all);
  std::vector<Conv> want; for (auto& s : in) want.push_back(fresh(F, T, s));
  IConv c(F, T);
  for (size_t i = 0; i < in.size(); ++i) { Logs::clear(); judge(x, F, T, in[i], c.convert(in[i]), want[i]); }
  { Logs::clear(); judge(x, F, T, "", c.convert(""), fresh(F, T, "")); }
  // the same messages as a file
  for (auto& s : in) if (weird(F, s)) return;
  Dictionary d(T); std::string po = header(F); std::vector<std::string> ids;
  for (size_t i = 0; i < in.size(); ++i) po += "\nmsgid \"m" + std::to_string(i) + "\"\nmsgstr \"" + po_escape(F, in[i]) + "\"\n";
  po += "\nmsgid \"p\"\nmsgid_plural \"ps\"\n"; for (size_t i = 0; i < in.size(); ++i) po += "msgstr[" + std::to_string(i) + "] \"" + po_escape(F, in[i]) + "\"\n";
  po += "\nmsgctxt \"c\"\nmsgid \"m\"\nmsgstr \"" + po_escape(F, in.back()) + "\"\n";
  Logs::clear(); parse(po, d);
  Snap s = snap(d); x.step();
  for (size_t i = 0; i < in.size(); ++i) {
    auto e = s.plain.find("m" + std::to_string(i)); if (e == s.plain.end()) x.fail("message lost in\n" + po);
    judge(x, F, T, in[i], e->second[0], want[i]);
    auto p = s.plain.find("p"); if (p == s.plain.end() || p->second.size() != in.size()) x.fail("plural message lost in\n" + po);
    judge(x, F, T, in[i], p->second[i], want[i]);
  }
  auto e = s.ctxt.find({"c", "m"}); if (e == s.ctxt.end()) x.fail("contextual message lost in\n" + po);
  judge(x, F, T, in.back(), e->second[0], want.back());
}
// invalid bytes at every place of a message; its neighbours stay exact
void invalid(Ctx& x, bool thorough) {
  static const Strings fs = {"UTF-8", "BIG5", "EUC-JP", "ASCII", "GB18030", "SHIFT_JIS", "UTF-16LE", "ISO-2022-JP", "CP1258", "UTF-7", "ISO-8859-3"};
  static const Strings ts = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-32", "ISO-2022-JP", "UTF-7"};
  const std::string F = fs[static_cast<size_t>(x.choose(static_cast<int>(fs.size())))], T = ts[static_cast<size_t>(x.choose(static_cast<int>(ts.size())))];
  if (F == T || !fresh(F, T, "").avail) { x.trivial(); return; }
  int b1 = 0x80 + x.choose(128);
  static const Strings around = {"", "ab", "a", "abc"};
  bool stateful = F == "ISO-2022-JP" || F == "CP1258" || F == "UTF-7" || T == "ISO-2022-JP" || T == "UTF-7";
  std::string good = fresh("UTF-8", F, "good").out, lead = fresh("UTF-8", F, "ok").out, goodc = F == "EUC-JP" ? "\xc6\xfc" : F == "UTF-8" ? "\xe6\x97\xa5" : lead;
  x.note(F + " to " + T + " with byte " + std::to_string(b1));
  for (auto& pre : around) for (auto& post : around) for (int b2 = -1; b2 < 256; b2 += (b2 < 0 ? 1 : thorough ? 1 : 37)) {
    std::string bad = fresh("UTF-8", F, pre).out + static_cast<char>(b1) + (b2 < 0 ? "" : std::string(1, static_cast<char>(b2))) + fresh("UTF-8", F, post).out;
    if (bad.find('\n') != std::string::npos) continue;
    Conv wb = fresh(F, T, bad), wg = fresh(F, T, goodc);
    IConv c(F, T);
    for (int round = 0; round < 2; ++round) {
      Logs::clear();
      std::string g = c.convert(goodc); x.step(); if (wg.ok && g != wg.out) x.fail("before/after " + mc::quote(bad) + ": " + what(F, T, goodc, g, wg.out));
      Logs::clear();
      std::string r = c.convert(bad); x.step(); x.state(mc::hash(r));
      if (wb.ok) { if (r != wb.out) x.fail(what(F, T, bad, r, wb.out)); if (Logs::nerr()) x.fail("error reported for valid " + what(F, T, bad, r, wb.out)); }
      else { if (!Logs::nerr()) x.fail("no error reported for invalid " + what(F, T, bad, r, wb.prefix)); if (!stateful && r.compare(0, wb.prefix.size(), wb.prefix) != 0) x.fail("valid part lost: " + what(F, T, bad, r, wb.prefix)); }
    }
    // in a file (the message in question may also be malformed as PO text in Big5 mode: then only neighbours count)
    if (bad.find('"') != std::string::npos || bad.find('\\') != std::string::npos || F == "UTF-16LE") continue;
    std::string po = header(F) + "\nmsgid \"g1\"\nmsgstr \"" + po_escape(F, goodc) + "\"\n\nmsgid \"bad\"\nmsgstr \"" + bad + "\"\n\nmsgid \"g2\"\nmsgstr \"" + po_escape(F, goodc) + "\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"" + bad + "\"\nmsgstr[1] \"" + po_escape(F, goodc) + "\"\n\nmsgid \"g3\"\nmsgstr \"" + po_escape(F, good) + "\"\n";
    Dictionary d(T); Logs::clear(); parse(po, d); Snap s = snap(d); x.step();
    std::string wgood = fresh(F, T, good).out;
    if (s.plain["g1"] != Strings{wg.out} || s.plain["g2"] != Strings{wg.out} || s.plain["g3"] != Strings{wgood}) x.fail("neighbours of an invalid message changed:\n" + mc::quote(po, 2000) + "\n" + show(s));
    if (!wb.ok && !Logs::nerr()) x.fail("no error reported for:\n" + mc::quote(po, 2000));
    if (wb.ok && upper(F) != "BIG5") { if (s.plain["bad"] != Strings{wb.out}) x.fail("in a file: " + what(F, T, bad, show(s.plain["bad"]), wb.out)); if (s.plain["n"] != Strings{wb.out, wg.out}) x.fail("plural in a file: " + what(F, T, bad, show(s.plain["n"]), wb.out)); }
  }
}
// every two-byte Big5 character, in every role, next to quotes and escapes
void big5(Ctx& x) {
  int lead = 0x81 + x.choose(0x7e);
  std::string po = header("BIG5"); std::map<std::string, std::string> want; std::vector<std::pair<std::string, Conv>> cases;
  x.note("lead byte " + std::to_string(lead));
  for (int tr = 0; tr < 256; ++tr) {
    if (tr == '\n') continue;
    std::string ch; ch += static_cast<char>(lead); ch += static_cast<char>(tr);
    Conv w = fresh("BIG5", "UTF-8", ch); if (!w.ok) continue;
    std::string k = "k" + std::to_string(tr);
    int form = tr % 4;
    std::string txt = form == 0 ? ch : form == 1 ? ch + "\\n" + ch : form == 2 ? "\\\"" + ch + "\\\\" : ch + ch + "z";
    std::string val = form == 0 ? w.out : form == 1 ? w.out + "\n" + w.out : form == 2 ? "\"" + w.out + "\\" : w.out + w.out + "z";
    // only characters whose second byte does not itself convert differently in sequence
    po += "\nmsgid \"" + k + "\"\nmsgstr \"" + txt + "\"\n"; want[k] = val;
    po += "\nmsgid \"p" + k + "\"\nmsgid_plural \"" + ch + "\"\nmsgstr[0] \"" + txt + "\"\nmsgstr[1] \"" + ch + "\"\n";
    po += "\nmsgid \"split" + k + "\"\nmsgstr \"" + ch + "\"\n\"" + ch + "\"\n"; want["split" + k] = w.out + w.out;
  }
  if (want.empty()) { x.trivial(); return; }
  Dictionary d; Logs::clear(); parse(po, d); Snap s = snap(d); x.step(want.size());
  for (auto& e : want) { if (s.plain[e.first].empty() || s.plain[e.first][0] != e.second) x.fail("Big5 " + e.first + " loaded as " + show(s.plain[e.first]) + ", expected " + mc::quote(e.second)); if (e.first[0] == 'k' && (s.plain["p" + e.first].size() != 2 || s.plain["p" + e.first][0] != e.second)) x.fail("Big5 plural " + e.first + " loaded as " + show(s.plain["p" + e.first])); }
  x.state(s.hash());
}
// every character of many sets, each in a message of its own and at every plural index
void tables(Ctx& x) {
  static const Strings single = {"ISO-8859-1", "ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-10", "ISO-8859-11", "ISO-8859-13", "ISO-8859-14", "ISO-8859-15", "ISO-8859-16", "CP1250", "CP1251", "CP1252", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "KOI8-R", "KOI8-U", "CP437", "CP850", "CP866", "TIS-620", "MACINTOSH", "ARMSCII-8", "GEORGIAN-PS", "KOI8-T", "VISCII", "TCVN", "CP1258", "US-ASCII", "LATIN1", "L2"};
  static const Strings twin = {"EUC-JP", "GB2312", "EUC-KR", "GBK", "GB18030", "UTF-8", "EUC-TW"};
  static const Strings to = {"UTF-8", "UTF-16LE", "ISO-8859-1"};
  int k = x.choose(static_cast<int>(single.size()) + 94 * static_cast<int>(twin.size())), t = x.choose(3); size_t ns = single.size();
  bool one = static_cast<size_t>(k) < ns; const std::string F = one ? single[static_cast<size_t>(k)] : twin[(static_cast<size_t>(k) - ns) / 94], T = to[static_cast<size_t>(t)];
  int lead = one ? 0 : 0xa1 + static_cast<int>((static_cast<size_t>(k) - ns) % 94);
  if (!fresh(F, T, "").avail) { x.trivial(); return; }
  x.note(F + " to " + T + (one ? "" : " lead byte " + std::to_string(lead)));
  std::string po = header(F); std::map<std::string, std::string> want; std::string all; int n = 0; static const char* CX = "cx";
  for (int b = one ? 1 : 0xa1; b < (one ? 256 : 255); ++b) {
    if (b == '\n' || b == '"' || b == '\\') continue;
    std::string ch = one ? std::string(1, static_cast<char>(b)) : F == "UTF-8" ? std::string(1, static_cast<char>(0xe0 + lead % 16)) + static_cast<char>(0x80 + lead % 64) + static_cast<char>(0x80 + b % 64) : std::string(1, static_cast<char>(lead)) + static_cast<char>(b);
    Conv w = fresh(F, T, ch); if (!w.ok) continue;
    std::string id = "k" + std::to_string(b); int form = n++ % 10;
    po += "\nmsgid \"" + id + "\"\nmsgstr \"" + ch + "\"\n\nmsgctxt \"" + CX + "\"\nmsgid \"" + id + "\"\nmsgstr \"" + ch + "\"\n";
    po += "\nmsgid \"p" + id + "\"\nmsgid_plural \"ps\"\nmsgstr[" + std::to_string(form) + "] \"" + ch + "\"\n\nmsgctxt \"" + CX + "\"\nmsgid \"p" + id + "\"\nmsgid_plural \"ps\"\nmsgstr[" + std::to_string(9 - form) + "] \"" + ch + "\"\n";
    want[id] = w.out;
  }
  if (want.empty()) { x.trivial(); return; }
  Dictionary d(T); Logs::clear(); parse(po, d); Snap s = snap(d); x.step(want.size() * 4); n = 0;
  if (Logs::nerr()) x.fail("errors reported for valid characters of " + F);
  for (int b = 1; b < 256; ++b) { std::string id = "k" + std::to_string(b); auto e = want.find(id); if (e == want.end()) continue; int form = n++ % 10; std::string at = "byte " + std::to_string(b) + (one ? "" : " after " + std::to_string(lead)) + " of " + F + " to " + T + ": ";
    auto& a = s.plain[id]; if (a != Strings{e->second}) x.fail(at + show(a) + ", expected " + mc::quote(e->second));
    auto& c = s.ctxt[{CX, id}]; if (c != Strings{e->second}) x.fail(at + "contextual " + show(c) + ", expected " + mc::quote(e->second));
    auto& p = s.plain["p" + id]; if (p.size() <= static_cast<size_t>(form) || p[static_cast<size_t>(form)] != e->second) x.fail(at + "plural form " + std::to_string(form) + " of " + show(p) + ", expected " + mc::quote(e->second));
    auto& q = s.ctxt[{CX, "p" + id}]; if (q.size() <= static_cast<size_t>(9 - form) || q[static_cast<size_t>(9 - form)] != e->second) x.fail(at + "contextual plural form " + std::to_string(9 - form) + " of " + show(q) + ", expected " + mc::quote(e->second)); }
  x.state(s.hash());
}
// growth: messages of every length
void lengths(Ctx& x, int limit) {
  static const std::vector<std::pair<const char*, const char*>> ps = {{"UTF-8", "UTF-32"}, {"UTF-8", "UTF-7"}, {"ISO-8859-1", "UTF-8"}, {"BIG5", "GB18030"}, {"UTF-8", "ISO-2022-JP"}, {"UTF-8", "UTF-16"}, {"UTF-16", "UTF-8"}, {"UTF-7", "UTF-8"}, {"CP1258", "UTF-8"}, {"UTF-8", "ISO-2022-KR"}, {"ASCII", "UTF-32"}, {"UTF-8", "ISO-2022-CN"}};
  static const int extra[] = {1023, 1024, 1025, 4095, 4096, 8191, 8192, 16384, 32768, 65536};
  auto& p = ps[static_cast<size_t>(x.choose(static_cast<int>(ps.size())))]; int u = x.choose(4), k = x.choose(limit + 10), n = k < limit ? k : extra[k - limit];
  static const Strings unit = {"a", "\xc3\xa9", "\xe6\x97\xa5", "a\xc3\xa9+"};
  std::string src; for (int i = 0; i < n; ++i) src += unit[static_cast<size_t>(u)];
  Conv s = fresh("UTF-8", p.first, src); if (!s.avail || !s.ok) { x.trivial(); return; }
  Conv w = fresh(p.first, p.second, s.out); if (!w.avail || !w.ok) { x.trivial(); return; }
  x.note(std::string(p.first) + " to " + p.second + ", " + std::to_string(n) + " x " + mc::quote(unit[static_cast<size_t>(u)]));
  Logs::clear();
  IConv c(p.first, p.second);
  for (int i = 0; i < 2; ++i) judge(x, p.first, p.second, s.out, c.convert(s.out), w);
  if (Logs::nerr()) x.fail("error reported for a valid message");
}
// which character set is in force: none declared, placeholder, any letter case, no header at all
void declared(Ctx& x) {
  static const Strings heads = {"", header(""), header("CHARSET"), header("UTF-8"), header("utf-8"), "msgid \"\"\nmsgstr \"\"\n", "msgid \"\"\nmsgstr \"Project: x\\n\"\n", "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=\\n\"\n"};
  static const Strings latin = {header("ISO-8859-1"), header("iso-8859-1"), header("Iso-8859-1")};
  int h = x.choose(static_cast<int>(heads.size() + latin.size())), t = x.choose(static_cast<int>(targets().size())), m = x.choose(4), late = x.choose(2);
  bool l1 = h >= static_cast<int>(heads.size());
  std::string H = l1 ? latin[static_cast<size_t>(h) - heads.size()] : heads[static_cast<size_t>(h)], F = l1 ? "ISO-8859-1" : "UTF-8", T = targets()[static_cast<size_t>(t)];
  static const Strings u = {"a", "\xc3\xa9", "x\xc3\xa9y\xc3\xa9", "\xe6\x97\xa5"};
  Conv s = fresh("UTF-8", F, u[static_cast<size_t>(m)]); if (!s.ok) { x.trivial(); return; }
  Conv w = fresh(F, T, s.out); if (!w.avail || !w.ok) { x.trivial(); return; }
  std::string e = "msgid \"k\"\nmsgstr \"" + esc(s.out) + "\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"" + esc(s.out) + "\"\n";
  if (late && !l1) { } else if (late) { x.trivial(); return; }
  std::string po = late ? e + "\n" + H : H + (H.empty() ? "" : "\n") + e;
  x.note("to " + T + "\n" + po);
  Dictionary d(T); parse(po, d); Snap sn = snap(d);
  if (sn.plain["k"] != Strings{w.out} || sn.plain["n"] != Strings{w.out}) x.fail("loaded " + show(sn.plain["k"]) + " and " + show(sn.plain["n"]) + ", expected " + mc::quote(w.out) + " in " + T + " from\n" + mc::quote(po, 1000));
  if (d.get_charset() != T) x.fail("dictionary charset changed");
  x.step(); x.state(sn.hash() + static_cast<uint64_t>(h));
}
std::vector<mc::Exploration> all(bool t) {
  Logs::install();
  std::vector<mc::Exploration> e;
  int n = t ? 3 : 2;
  e.push_back({"sequences", "16 x 15 pairs of character sets x all sequences of 1.." + std::to_string(n) + " messages of the source set, converted directly and through a file", [n](Ctx& x) { sequence(x, n); }}); e.back().shard_depth = 3; e.back().max_seconds = 3000;
  e.push_back({"invalid", "11 x 6 pairs x bytes 0x80..0xff alone and before another byte x 16 surroundings, with valid neighbours", [t](Ctx& x) { invalid(x, t); }}); e.back().shard_depth = 3; e.back().max_seconds = 3000;
  e.push_back({"big5", "every two-byte Big5 character in four forms, split over lines and in plural forms", big5}); e.back().shard_depth = 1;
  e.push_back({"tables", "every byte of 39 single-byte sets and every two-byte character of 7 sets, to 3 sets, as plain, contextual and plural message at every plural index", tables}); e.back().shard_depth = 1;
  int lim = t ? 2000 : 150;
  e.push_back({"lengths", "12 pairs x 4 contents x lengths 0.." + std::to_string(lim - 1) + " and around powers of two to 65536", [lim](Ctx& x) { lengths(x, lim); }}); e.back().max_seconds = 2000;
  e.push_back({"declared", "ways to declare or not declare a set x 15 targets x 4 messages x header first or last", declared});
  return e;
}
}
mc::Property mc::property = {"C06", "model_checking", "", {"the C library's iconv, used with a fresh descriptor per message and flushed, is the exact conversion", "for character sets whose second bytes can equal a quote or backslash only Big5 is asked to be read natively, as the parser documents"}, all};
