// C03: malformed entries next to well-formed ones.
#include "tg.hpp"
#include "tinygettext/dictionary_manager.hpp"
using namespace tg;
using mc::Ctx;

namespace {
// ---- well-formed neighbours, in the charset of the file ----
struct Good { std::string text; std::function<void(ref::Dict&, const std::string&)> apply; bool fuzzy; };
std::string uml(const std::string& cs) { return cs == "BIG5" ? "\xa5\x5c" : cs == "ISO-8859-1" ? "\xe9" : "\xc3\xa9"; }        // a character of the file's set (the Big5 one ends in a backslash byte)
std::string umlv(const std::string& cs) { return cs == "BIG5" ? "\xe5\x8a\x9f" : "\xc3\xa9"; }
Good good(int kind, const std::string& n, const std::string& cs) {
  std::string u = uml(cs);
  switch (kind) {
    case 0: return {"msgid \"g" + n + "\"\nmsgstr \"G" + u + "\"\n", [=](ref::Dict& m, const std::string& v) { m.add("g" + n, "G" + v); }, false};
    case 1: return {"msgctxt \"gc\"\nmsgid \"g" + n + "\"\nmsgstr \"GC" + u + "\"\n", [=](ref::Dict& m, const std::string& v) { m.add_c("gc", "g" + n, "GC" + v); }, false};
    case 2: return {"msgid \"g" + n + "\"\nmsgid_plural \"gs\"\nmsgstr[0] \"P0" + u + "\"\nmsgstr[1] \"P1\"\n", [=](ref::Dict& m, const std::string& v) { m.add("g" + n, Strings{"P0" + v, "P1"}); }, false};
    case 3: return {"#, fuzzy\nmsgid \"g" + n + "\"\nmsgstr \"F" + u + "\"\n", [=](ref::Dict& m, const std::string& v) { m.add("g" + n, "F" + v); }, true};
    case 4: return {"#. note\n#: f.c:1\n#, c-format\nmsgid \"\"\n\"g" + n + "\"\nmsgstr \"\"\n\"L1" + u + "\"\n\"L2\"\n", [=](ref::Dict& m, const std::string& v) { m.add("g" + n, "L1" + v + "L2"); }, false};
    default: return {"msgctxt \"gc\"\nmsgid \"g" + n + "\"\nmsgid_plural \"gs\"\nmsgstr[1] \"Q1\"\nmsgstr[0] \"Q0" + u + "\"\n", [=](ref::Dict& m, const std::string& v) { m.add_c("gc", "g" + n, Strings{"Q0" + v, "Q1"}); }, false};
  }
}
const int NGOOD = 6;
// ---- lines a possibly malformed block is made of ----
struct Line { const char* text; char kind; };   // C comment, X I P S N M (msgstr[0], msgstr[1]), Q string, J malformed
const Line LINES[] = {
  {"msgid \"bad\"", 'I'}, {"msgstr \"B\"", 'S'}, {"msgid_plural \"bads\"", 'P'}, {"msgstr[0] \"B0\"", 'N'}, {"msgstr[1] \"B1\"", 'M'}, {"msgctxt \"bc\"", 'X'}, {"\"bstray\"", 'Q'}, {"#, fuzzy", 'C'},
  {"msgid \"bad", 'J'}, {"msgid bad\"", 'J'}, {"msgid", 'J'}, {"msgid \"bad\\", 'J'}, {"msgstr \"B", 'J'}, {"msgstr", 'J'}, {"msgstr \"B\\", 'J'}, {"msgstr[0] \"B", 'J'}, {"msgstr[x] \"B\"", 'J'}, {"msgstr[0 \"B\"", 'J'}, {"msgstr[10] \"B\"", 'J'}, {"msgstr[0]", 'J'}, {"msgid_plural \"bads", 'J'}, {"msgctxt \"bc", 'J'}, {"msgctxt", 'J'}, {"garbage", 'J'}, {"\"open", 'J'}, {"\"", 'J'},
  {"#: bad.c:7", 'C'}, {"#~ msgid \"bad\"", 'C'}, {"\x01\xff", 'J'}, {"msgstr \"B\" junk", 'J'}, {"MSGID \"bad\"", 'J'}, {"msgid \"bad\xa4", 'J'}, {"=", 'J'},
};
const int NL = sizeof LINES / sizeof *LINES;
enum Class { WELL, OPEN, MAL };
// one entry starting at i (after its comments); end index or -1
int entry_end(const std::string& k, size_t i) {
  auto strs = [&] { while (i < k.size() && k[i] == 'Q') ++i; };
  if (i < k.size() && k[i] == 'X') { ++i; strs(); }
  if (i >= k.size() || k[i] != 'I') return -1;
  ++i; strs();
  if (i < k.size() && k[i] == 'S') { ++i; strs(); return static_cast<int>(i); }
  if (i >= k.size() || k[i] != 'P') return -1;
  ++i; strs(); size_t n = 0;
  while (i < k.size() && (k[i] == 'N' || k[i] == 'M')) { ++n; ++i; strs(); }
  return n ? static_cast<int>(i) : -1;
}
Class classify(const std::string& k) {
  size_t i = 0; while (i < k.size() && k[i] == 'C') ++i;
  if (i == k.size()) return WELL;
  int e = entry_end(k, i);
  if (e == static_cast<int>(k.size())) { size_t n = 0, m = 0; for (char c : k) { n += c == 'N'; m += c == 'M'; } return n > 1 || m > 1 ? OPEN : WELL; }
  // missing blank lines and comments inside entries are not judged
  std::string nc; for (char c : k) if (c != 'C') nc += c;
  size_t p = 0; while (p < nc.size()) { int z = entry_end(nc, p); if (z < 0) return MAL; p = static_cast<size_t>(z); }
  return OPEN;
}
struct Bad { std::string text, kinds; };
Bad block(Ctx& x, int maxlen) { int n = 1 + x.choose(maxlen); Bad b; for (int i = 0; i < n; ++i) { const Line& l = LINES[x.choose(NL)]; b.text += std::string(l.text) + "\n"; b.kinds += l.kind; } return b; }

struct File { std::string text; ref::Dict on, off; size_t malformed = 0; bool clean = true; size_t msgids = 0; };
void put_good(File& f, int kind, const std::string& n, const std::string& cs) { Good g = good(kind, n, cs); f.text += g.text + "\n"; g.apply(f.on, umlv(cs)); if (!g.fuzzy) g.apply(f.off, umlv(cs)); }
void put_bad(File& f, const Bad& b, const char* sep) { f.text += b.text + sep; Class c = classify(b.kinds); if (c == MAL) ++f.malformed; if (c != WELL) f.clean = false; f.msgids += 2 + b.kinds.size(); }
std::string crlf(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += '\r'; o += c; } return o; }

void decide(Ctx& x, const File& f, const std::string& cs, bool fuzzy, const std::string& text) {
  (void)cs;
  auto files = std::make_shared<Files>(); files->dirs["p"] = {{"de.po", text}};
  DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(files))); dm.add_directory("p");
  if (!fuzzy) dm.set_use_fuzzy(false);
  Logs::clear();
  Dictionary& d = dm.get_dictionary(Language::from_spec("de"));
  size_t reports = Logs::nerr() + Logs::nwarn(), errors = Logs::nerr();
  Snap s = snap(d), want = snap_of(fuzzy ? f.on : f.off); x.step();
  auto bad = [&](const std::string& m) { x.fail(m + (fuzzy ? "" : " (fuzzy entries off)") + " in:\n" + mc::quote(text, 2500) + "\n" + diff(s, want)); };
  for (auto& e : want.plain) { auto i = s.plain.find(e.first); if (i == s.plain.end()) bad("entry " + e.first + " is lost"); if (i->second != e.second) bad("entry " + e.first + " is changed"); }
  for (auto& e : want.ctxt) { auto i = s.ctxt.find(e.first); if (i == s.ctxt.end()) bad("contextual entry " + e.first.second + " is lost"); if (i->second != e.second) bad("contextual entry " + e.first.second + " is changed"); }
  for (auto& e : s.plain) if (e.first[0] == 'g' && !want.plain.count(e.first)) bad("entry " + mc::quote(e.first) + " must not be there");
  for (auto& e : s.ctxt) if (e.first.second[0] == 'g' && !want.ctxt.count(e.first)) bad("contextual entry " + mc::quote(e.first.second) + " must not be there");
  if (s.nplural != want.nplural || s.sig != want.sig) bad("the plural rule is changed");
  if (reports < f.malformed) bad(std::to_string(f.malformed) + " malformed entries, " + std::to_string(reports) + " reports");
  if (f.clean && errors) bad("an error is reported for a file without faults");
  x.state(s.hash());
}
const Strings& sets() { static const Strings v = {"UTF-8", "ISO-8859-1", "BIG5"}; return v; }
void start(File& f, const std::string& cs) { f.text = header(cs, "nplurals=2; plural=(n != 1);") + "\n"; f.on.rule = f.off.rule = rule(1); }

// one malformed block of n lines in every position
void one_block(Ctx& x, int n) {
  Bad b = block(x, n);
  static const char* seps[] = {"\n", " \t\n", "\n\n"};
  std::string shown;
  for (size_t c = 0; c < sets().size(); ++c) for (int pat = 0; pat < 6; ++pat) {
    const std::string& cs = sets()[c]; File f; if (pat < 4) start(f, cs);
    const char* sep = seps[static_cast<size_t>(pat) % 3];
    int k = static_cast<int>(c) * 2 + pat;
    switch (pat) {
      case 0: put_good(f, k % NGOOD, "1", cs); put_bad(f, b, sep); put_good(f, (k + 1) % NGOOD, "2", cs); put_good(f, 0, "3", cs); break;
      case 1: put_bad(f, b, sep); put_good(f, k % NGOOD, "1", cs); put_good(f, 2, "2", cs); break;
      case 2: put_good(f, 1, "1", cs); put_good(f, k % NGOOD, "2", cs); put_bad(f, b, ""); break;
      // the header without a plural rule, or behind the malformed entry
      case 4: f.text = header(cs) + "\n"; put_bad(f, b, sep); put_good(f, k % NGOOD, "1", cs); put_bad(f, b, sep); put_good(f, (k + 3) % NGOOD, "2", cs); break;
      case 5: { put_bad(f, b, "\n"); std::string first = f.text; start(f, cs); f.text = first + f.text; put_good(f, k % NGOOD, "1", cs); put_bad(f, b, sep); put_good(f, 2, "2", cs); break; }
      default: put_good(f, 3, "1", cs); put_bad(f, b, "\n"); put_bad(f, b, sep); put_good(f, k % NGOOD, "2", cs); break;
    }
    std::string text = f.text;
    if (pat == 2) text.pop_back();
    if ((c + static_cast<size_t>(pat)) % 2) text = crlf(text);
    if (shown.empty()) { shown = text; x.note(mc::quote(b.text)); }
    decide(x, f, cs, true, text); if (pat < 4) decide(x, f, cs, false, text);
  }
}
// longer blocks of lines that are all right by themselves
void grammar(Ctx& x, int maxlen) {
  static const int pick[] = {0, 1, 2, 3, 4, 5, 6};
  int n = 1 + x.choose(maxlen); Bad b; for (int i = 0; i < n; ++i) { const Line& l = LINES[pick[x.choose(7)]]; b.text += std::string(l.text) + "\n"; b.kinds += l.kind; }
  const std::string& cs = sets()[0]; x.note(b.text);
  for (int pat = 0; pat < 2; ++pat) { File f; start(f, cs); put_good(f, pat ? 4 : 2, "1", cs); put_bad(f, b, pat ? "\n\n" : "\n"); put_good(f, pat ? 5 : 0, "2", cs); decide(x, f, cs, !pat, f.text); }
}
// two malformed blocks with entries around
void two_blocks(Ctx& x, int n) {
  Bad a = block(x, n), b = block(x, n);
  int pat = x.choose(2); const std::string& cs = sets()[static_cast<size_t>(pat)];
  File f; start(f, cs);
  put_good(f, 0, "1", cs); put_bad(f, a, "\n"); if (pat) put_good(f, 2, "2", cs); put_bad(f, b, "\n"); put_good(f, 1, "3", cs);
  x.note(f.text);
  decide(x, f, cs, pat == 0, f.text);
}
// every pair of neighbours around short malformed blocks, every charset and line end
void neighbours(Ctx& x, int n) {
  Bad b = block(x, n); int l = x.choose(NGOOD), r = x.choose(NGOOD);
  for (auto& cs : sets()) for (int v = 0; v < 2; ++v) {
    File f; start(f, cs); put_good(f, l, "1", cs); put_bad(f, b, v ? "  \n" : "\n"); put_good(f, r, "2", cs);
    std::string t = v ? crlf(f.text) : f.text;
    if (&cs == &sets()[0] && !v) x.note(t);
    decide(x, f, cs, true, t); decide(x, f, cs, false, t);
  }
}
// faulty string contents in every string of every kind of entry
void contents(Ctx& x, int n) {
  static const Strings tok = {"\"", "\\", "a", "\xa4", "\\\"", " ", "x\"y", "\\n", "#", "\xfe"};
  static const std::vector<std::pair<std::string, std::string>> shapes = {
    {"msgid \"", "\"\nmsgstr \"B\"\n"}, {"msgid \"bad\"\nmsgstr \"", "\"\n"}, {"msgctxt \"", "\"\nmsgid \"bad\"\nmsgstr \"B\"\n"}, {"msgid \"bad\"\nmsgid_plural \"", "\"\nmsgstr[0] \"B\"\n"}, {"msgid \"bad\"\nmsgid_plural \"bads\"\nmsgstr[0] \"", "\"\nmsgstr[1] \"C\"\n"}, {"msgid \"bad\"\nmsgid_plural \"bads\"\nmsgstr[0] \"C\"\nmsgstr[1] \"", "\"\n"}, {"msgid \"bad\"\nmsgstr \"\"\n\"", "\"\n\"more\"\n"}, {"msgid \"b\"\n\"", "\"\nmsgstr \"B\"\n"}};
  auto& sh = shapes[static_cast<size_t>(x.choose(static_cast<int>(shapes.size())))];
  int len = 1 + x.choose(n); std::string c; for (int i = 0; i < len; ++i) c += tok[static_cast<size_t>(x.choose(static_cast<int>(tok.size())))];
  bool closed = x.choose(2) == 0;
  std::string body = sh.first + "b" + c + (closed ? sh.second : sh.second.substr(1));
  x.note(mc::quote(body));
  for (auto& cs : sets()) {
    File f; start(f, cs); put_good(f, 2, "1", cs); f.text += body + "\n"; f.clean = false; put_good(f, 0, "2", cs); put_good(f, 1, "3", cs);
    // faulty when the string is not closed at the end of its line
    bool escd = false, ended = false, junk = false, big = false;
    bool b5 = cs == "BIG5";
    std::string line = "b" + c + (closed ? "\"" : "");
    for (size_t i = 0; i < line.size(); ++i) { unsigned char ch = static_cast<unsigned char>(line[i]); if (ended) { if (!isspace(ch)) junk = true; continue; } if (big) { big = false; continue; } if (escd) { escd = false; continue; } if (b5 && ch >= 0x81 && ch <= 0xfe) { big = true; continue; } if (ch == '\\') escd = true; else if (ch == '"') ended = true; }
    if (!ended || junk) ++f.malformed;
    decide(x, f, cs, true, f.text);
  }
}
// files without faults report no error
void clean(Ctx& x) {
  int n = 1 + x.choose(3); std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(x.choose(NGOOD));
  for (auto& cs : sets()) { File f; start(f, cs); for (int i = 0; i < n; ++i) put_good(f, k[static_cast<size_t>(i)], std::to_string(i), cs); x.note(f.text);
    for (int fz = 0; fz < 2; ++fz) { decide(x, f, cs, fz, f.text); decide(x, f, cs, fz, crlf(f.text)); decide(x, f, cs, fz, f.text.substr(0, f.text.size() - 2)); } }
}
std::vector<mc::Exploration> all(bool t) {
  Logs::install();
  std::vector<mc::Exploration> e;
  e.push_back({"clean", "all files of at most 3 of 6 kinds of well-formed entries, 3 charsets, LF and CRLF, fuzzy on and off", clean});
  int n = t ? 4 : 3;
  e.push_back({"one-block", "all blocks of at most " + std::to_string(n) + " of 33 lines x 6 positions x 3 charsets x fuzzy on and off", [n](Ctx& x) { one_block(x, n); }}); e.back().shard_depth = 3; e.back().max_seconds = 3000;
  int gl = t ? 7 : 5;
  e.push_back({"grammar", "all blocks of at most " + std::to_string(gl) + " of 7 lines that are correct by themselves, in 2 surroundings", [gl](Ctx& x) { grammar(x, gl); }}); e.back().shard_depth = 4; e.back().max_seconds = 2500;
  int m = t ? 3 : 2;
  e.push_back({"neighbours", "all blocks of at most " + std::to_string(t ? 2 : 1) + " lines between all 36 pairs of neighbours x 3 charsets x 2 layouts x fuzzy on and off", [t](Ctx& x) { neighbours(x, t ? 2 : 1); }}); e.back().shard_depth = 2; e.back().max_seconds = 2000;
  e.push_back({"two-blocks", "all pairs of blocks of at most 2 lines, adjacent or with an entry between", [](Ctx& x) { two_blocks(x, 2); }}); e.back().shard_depth = 3; e.back().max_seconds = 2000;
  e.push_back({"contents", "all string contents of at most " + std::to_string(m + 1) + " of 10 tokens at 8 places, closed or not, 3 charsets", [m](Ctx& x) { contents(x, m + 1); }}); e.back().shard_depth = 3; e.back().max_seconds = 2000;
  return e;
}
}
mc::Property mc::property = {"C03", "model_checking", "", {"two entries without a blank line between them, comments inside an entry and repeated plural indices are not judged as faults", "what a malformed entry itself contributes is left open"}, all};
