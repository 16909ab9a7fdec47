// C18: the system conversion interface is replaced by a monitored one with fault injection.
#include <cerrno>
#include <dlfcn.h>
#include <iconv.h>
#include "mgr.hpp"
#include "tinygettext/iconv.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
struct Desc { ::iconv_t real; bool open; };
struct Monitor {
  bool on = false; std::vector<Desc> d; std::string broken, log; int opens = 0, closes = 0;
  std::function<int()> open_fault, conv_fault;      // 0 none; open: 1 EINVAL, 2 EMFILE; convert: 1 little room, 2 EILSEQ, 3 EINVAL
  bool injected_conv = false;
  void start() { d.clear(); d.reserve(64); broken.clear(); log.clear(); opens = closes = 0; open_fault = nullptr; conv_fault = nullptr; on = true; }
  void say(const std::string& s) { if (broken.empty()) broken = s; }
  Desc* find(::iconv_t h) { uintptr_t v = reinterpret_cast<uintptr_t>(h); const uintptr_t base = 0x7000; if (v < base || v >= base + d.size()) return nullptr; return &d[v - base]; }
  size_t live() const { size_t n = 0; for (auto& e : d) n += e.open; return n; }
};
Monitor mon;
template <class F> F real(const char* n) { static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); return f; }
::iconv_t real_open(const char* t, const char* f) { return real<::iconv_t (*)(const char*, const char*)>("iconv_open")(t, f); }
size_t real_iconv(::iconv_t c, char** i, size_t* il, char** o, size_t* ol) { return real<size_t (*)(::iconv_t, char**, size_t*, char**, size_t*)>("iconv")(c, i, il, o, ol); }
int real_close(::iconv_t c) { return real<int (*)(::iconv_t)>("iconv_close")(c); }
}
extern "C" ::iconv_t iconv_open(const char* to, const char* from) {
  if (!mon.on) return real_open(to, from);
  int k = mon.open_fault ? mon.open_fault() : 0;
  if (k) { mon.log += "[open fails] "; errno = k == 1 ? EINVAL : EMFILE; return reinterpret_cast<::iconv_t>(-1); }
  ::iconv_t r = real_open(to, from); if (r == reinterpret_cast<::iconv_t>(-1)) return r;
  mon.d.push_back({r, true}); ++mon.opens; return reinterpret_cast<::iconv_t>(0x7000 + mon.d.size() - 1);
}
extern "C" size_t iconv(::iconv_t h, char** in, size_t* inl, char** out, size_t* outl) {
  if (!mon.on) return real_iconv(h, in, inl, out, outl);
  Desc* d = mon.find(h);
  if (!d) { mon.say("a conversion uses a descriptor that was never successfully opened"); errno = EILSEQ; return static_cast<size_t>(-1); }
  if (!d->open) { mon.say("a conversion uses a descriptor after it was closed"); errno = EILSEQ; return static_cast<size_t>(-1); }
  int k = in && *in && mon.conv_fault ? mon.conv_fault() : 0;
  if (k == 2 || k == 3) { mon.log += k == 2 ? "[EILSEQ] " : "[EINVAL] "; mon.injected_conv = true; errno = k == 2 ? EILSEQ : EINVAL; return static_cast<size_t>(-1); }
  if (k == 1 && outl && *outl > 3) { mon.log += "[little room] "; size_t few = 3, keep = *outl; size_t r = real_iconv(d->real, in, inl, out, &few); int e = errno; *outl = keep - (3 - few); errno = e; return r; }
  return real_iconv(d->real, in, inl, out, outl);
}
extern "C" int iconv_close(::iconv_t h) {
  if (!mon.on) return real_close(h);
  Desc* d = mon.find(h); ++mon.closes;
  if (!d) { mon.say("a descriptor is closed that was never successfully opened"); errno = EBADF; return -1; }
  if (!d->open) { mon.say("a descriptor is closed twice"); errno = EBADF; return -1; }
  d->open = false; return real_close(d->real);
}
namespace {
const std::vector<std::pair<std::string, std::string>> SETS = {{"UTF-8", "ISO-8859-1"}, {"ISO-8859-1", "utf-8"}, {"UTF-8", "UTF-8"}, {"UTF-8", "ISO-2022-JP"}, {"UTF-8", "NOSUCH"}, {"NOSUCH", "UTF-8"}, {"UTF-8", "UTF-16"}, {"NOSUCH", ""}, {"NOSUCH", "nosuch"}, {"", ""}, {"ISO-8859-1", "NOSUCH"}};
bool identity(int s) { return s == 2 || s == 8 || s == 9; }
bool unknown(int s) { return s == 4 || s == 5 || s == 7 || s == 10; }
const Strings TEXTS = {"a\xc3\xa9", "", "\xe6\x97\xa5x", "\xff", "plain ascii text"};
// what a conversion of a whole text must give; false when the text cannot be converted
bool oneshot(int set, const std::string& text, std::string& out) {
  static std::map<std::pair<int, std::string>, std::pair<bool, std::string>> memo; auto key = std::make_pair(set, text); auto i = memo.find(key);
  if (i == memo.end()) {
    std::string up = SETS[static_cast<size_t>(set)].second; bool ok = true; std::string o;
    if (identity(set)) o = text; else {
      ::iconv_t c = real_open(up.c_str(), SETS[static_cast<size_t>(set)].first.c_str()); std::string t = text; char* p = &t[0]; size_t l = t.size(); o.assign(64 + 8 * l, 0); char* q2 = &o[0]; size_t ol = o.size();
      ok = real_iconv(c, &p, &l, &q2, &ol) != static_cast<size_t>(-1) && real_iconv(c, nullptr, nullptr, &q2, &ol) != static_cast<size_t>(-1); o.resize(o.size() - ol); real_close(c); }
    i = memo.insert({key, {ok, o}}).first;
  }
  out = i->second.second; return i->second.first;
}
struct Bad { std::string m; };
struct Conv { std::unique_ptr<IConv> c; int set = 2; };
void verdict() { if (!mon.broken.empty()) throw Bad{mon.broken}; }
void ended() { verdict(); if (mon.live()) throw Bad{std::to_string(mon.live()) + " descriptors are never closed"}; }
const std::string PO2 = header("ISO-8859-1") + "\nmsgid \"a\"\nmsgstr \"\xe9\"\n\n" + header("KOI8-R") + "\nmsgid \"b\"\nmsgstr \"\xc1\"\n", PONO = "msgid \"a\"\nmsgstr \"A\"\n\n" + header("NOSUCH") + "\nmsgid \"b\"\nmsgstr \"B\"\n", PO1 = header("UTF-8") + "\nmsgid \"a\"\nmsgstr \"\xc3\xa9\xff\"\n\nmsgid \"b\"\nmsgstr \"\xc3\xa9\"\n";
const int NCONV = 6 + 7 + 5;                        // per converter
void convert(Conv& v, const std::string& text) {
  if (!v.c) return; mon.injected_conv = false; std::string w, o = v.c->convert(text);
  if (!mon.injected_conv && oneshot(v.set, text, w) && o != w) throw Bad{"converting " + mc::quote(text) + " gives " + mc::quote(o) + ", expected " + mc::quote(w)};
  if (identity(v.set) && o != text) throw Bad{"a text that needs no conversion is changed"};
}
void configure(Conv& v, int s) {
  if (!v.c) return;
  size_t opens = mon.d.size(); (void)opens;
  try { v.c->set_charsets(SETS[static_cast<size_t>(s)].first, SETS[static_cast<size_t>(s)].second); v.set = s; if (unknown(s)) throw Bad{"configuring an unknown character set does not fail"}; } catch (std::runtime_error&) { mon.log += "(failed) "; }
}
void load(const std::string& t, const std::string& cs) { Dictionary d(cs); try { parse(t, d); } catch (std::runtime_error&) { mon.log += "(failed) "; } }
void op(Conv& v, int o, const char* who) {
  std::string w(who);
  if (o < 3) { static const int s[] = {0, 3, 4}; mon.log += w + " = IConv(" + SETS[static_cast<size_t>(s[o])].first + ", " + SETS[static_cast<size_t>(s[o])].second + ") "; v.c.reset(); v.set = 2; try { v.c.reset(new IConv(SETS[static_cast<size_t>(s[o])].first, SETS[static_cast<size_t>(s[o])].second)); v.set = s[o]; } catch (std::runtime_error&) { mon.log += "(failed) "; } }
  else if (o == 3) { mon.log += w + " = IConv() "; v.c.reset(new IConv); v.set = 2; }
  else if (o == 4) { mon.log += "drop " + w + " "; v.c.reset(); }
  else if (o >= 17) { mon.log += w + ".set_charsets(" + mc::quote(SETS[static_cast<size_t>(o - 10)].first) + ", " + mc::quote(SETS[static_cast<size_t>(o - 10)].second) + ") "; configure(v, o - 10); }
  else if (o < 12) { mon.log += w + ".set_charsets(" + SETS[static_cast<size_t>(o - 5)].first + ", " + SETS[static_cast<size_t>(o - 5)].second + ") "; configure(v, o - 5); }
  else { mon.log += w + ".convert(" + mc::quote(TEXTS[static_cast<size_t>(o - 12)]) + ") "; convert(v, TEXTS[static_cast<size_t>(o - 12)]); }
  verdict();
}
const int OPS1 = 17;
void faults(Ctx& x, bool inject) { if (!inject) return; mon.open_fault = [&x] { return x.deviate(3); }; mon.conv_fault = [&x] { return x.deviate(4); }; }
void converters(Ctx& x, int depth, int n, const std::vector<int>& ops, bool inject) {
  Logs::silence(); mon.start(); faults(x, inject); static const char* who[] = {"a", "b"};
  try {
    std::vector<Conv> v(static_cast<size_t>(n));
    for (auto& c : v) { c.c.reset(new IConv); }
    for (int i = 0; i < depth; ++i) { int w = n > 1 ? x.choose(n) : 0; op(v[static_cast<size_t>(w)], ops[static_cast<size_t>(x.choose(static_cast<int>(ops.size())))], who[w]); x.step(); }
    mon.open_fault = nullptr; mon.conv_fault = nullptr;
    // still usable: first as it is, then configured again
    for (auto& c : v) { mon.log += "| use "; for (auto& t : TEXTS) convert(c, t); for (int s : {0, 3, 1, 2, 6}) { configure(c, s); if (c.c && c.set != s) throw Bad{"configuring again fails"}; for (auto& t : TEXTS) convert(c, t); } verdict(); }
    v.clear(); ended();
  } catch (Bad& b) { mon.on = false; x.fail("after " + mon.log + ": " + b.m); } catch (std::runtime_error& e) { mon.on = false; x.fail("after " + mon.log + ": " + e.what()); } catch (...) { mon.on = false; throw; }
  mon.on = false; x.note(mon.log); x.state(mon.log);
}
// files and managers on top, faults at any point
struct World { std::shared_ptr<Files> f = std::make_shared<Files>(); World() { f->dirs["p"] = {{"de.po", PO2}, {"fr.po", PONO}}; f->dirs["q"] = {{"de.po", PO1}, {"de_AT.po", PO2}}; } };
void users(Ctx& x, int depth) {
  static World w; Logs::silence(); mon.start(); faults(x, true);
  try {
    { DictionaryManager dm(std::unique_ptr<FileSystem>(new MemFS(w.f))); dm.add_directory("p"); dm.add_directory("q"); Dictionary d("ISO-8859-1");
      for (int i = 0; i < depth; ++i) { x.step(); switch (x.choose(10)) {
        case 0: mon.log += "parse two headers "; load(PO2, "UTF-8"); break; case 1: mon.log += "parse unknown set "; load(PONO, "UTF-8"); break; case 2: mon.log += "parse into ISO-8859-1 "; load(PO1, "ISO-8859-1"); break;
        case 3: mon.log += "parse into unknown set "; load(PO1, "NOSUCH"); break; case 4: mon.log += "get(de) "; dm.get_dictionary(Language::from_spec("de")); break; case 5: mon.log += "get(de_AT) "; dm.get_dictionary(Language::from_spec("de", "AT")); break;
        case 6: mon.log += "get(fr) "; dm.get_dictionary(Language::from_spec("fr")); break; case 7: mon.log += "set_charset(KOI8-R) "; dm.set_charset("KOI8-R"); break; case 8: mon.log += "set_charset(UTF-8) "; dm.set_charset("UTF-8"); break;
        default: mon.log += "parse into the same dictionary "; try { parse(PO2, d); } catch (std::runtime_error&) {} break; }
        verdict(); if (mon.live()) throw Bad{std::to_string(mon.live()) + " descriptors stay open although no converter exists"}; }
      mon.open_fault = nullptr; mon.conv_fault = nullptr;
      mon.log += "| parse "; Dictionary e; parse(PO2, e); if (e.translate("a") != "\xc3\xa9" || e.translate("b") != "\xd0\xb0") throw Bad{"a file is not converted properly afterwards: " + mc::quote(e.translate("a")) + " " + mc::quote(e.translate("b"))};
    }
    ended();
  } catch (Bad& b) { mon.on = false; x.fail("after " + mon.log + ": " + b.m); } catch (...) { mon.on = false; throw; }
  mon.on = false; x.note(mon.log); x.state(mon.log);
}
// memory balance of histories (no faults)
void balance(Ctx& x, int depth) {
  Logs::silence(); std::vector<int> ops; for (int i = 0; i < depth; ++i) ops.push_back(x.choose(OPS1));
  std::string why; auto run = [&] { mon.start(); { Conv v; v.c.reset(new IConv); for (int o : ops) op(v, o, "a"); } if (mon.live()) why = "descriptors are never closed"; mon.on = false; };
  try { size_t l = leaked(run); x.step(ops.size()); x.note(mon.log); x.state(mon.log); if (!why.empty()) x.fail("after " + mon.log + why); if (l) x.fail("after " + mon.log + std::to_string(l) + " bytes are never freed"); } catch (Bad& b) { mon.on = false; x.fail("after " + mon.log + ": " + b.m); }
}
std::vector<mc::Exploration> all(bool t) {
  std::vector<mc::Exploration> e; std::vector<int> every; for (int i = 0; i < OPS1; ++i) every.push_back(i);
  auto exp = [&](const char* name, int depth, int n, std::vector<int> ops, int faults) { e.push_back({name, "all sequences of " + std::to_string(depth) + " of " + std::to_string(ops.size()) + " operations on " + std::to_string(n) + " converter(s), at most " + std::to_string(faults) + " faults (opening fails in 2 ways, converting in 3), then use and reconfiguration", [=](Ctx& x) { converters(x, depth, n, ops, faults > 0); }}); e.back().deviation_bound = faults; e.back().max_seconds = 2000; e.back().shard_depth = 2; };
  exp("no-faults", t ? 5 : 4, 1, every, 0);
  exp("two-faults", t ? 4 : 3, 1, every, 2);
  exp("two-converters", t ? 4 : 3, 2, {1, 3, 4, 5, 6, 7, 8, 9, 12, 14}, 1);
  exp("odd-names", t ? 5 : 4, 1, {5, 7, 9, 17, 18, 19, 20, 12, 4, 0}, 1);
  exp("reconfiguring", t ? 5 : 4, 1, {5, 7, 8, 9, 12, 4, 0}, 2);
  e.push_back({"users", "all sequences of " + std::to_string(t ? 4 : 3) + " of 10 operations (parsing, manager requests) with at most " + std::to_string(t ? 2 : 1) + " faults", [t](Ctx& x) { users(x, t ? 4 : 3); }}); e.back().deviation_bound = t ? 2 : 1; e.back().max_seconds = 2000;
  e.push_back({"users-faults", "all sequences of 2 of the same operations with at most " + std::to_string(t ? 3 : 2) + " faults", [](Ctx& x) { users(x, 2); }}); e.back().deviation_bound = t ? 3 : 2; e.back().max_seconds = 2000;
  e.push_back({"balance", "memory and descriptor balance of all sequences of " + std::to_string(t ? 4 : 3) + " of 17 operations", [t](Ctx& x) { balance(x, t ? 4 : 3); }}); e.back().max_seconds = 2000;
  return e;
}
}
mc::Property mc::property = {"C18", "model_checking", "", {"faults are the ones iconv documents: EINVAL and EMFILE on opening; E2BIG, EILSEQ and EINVAL on converting", "closing never fails"}, all};
