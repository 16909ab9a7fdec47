// C23: work and memory stay in proportion to what is given; lookups do not depend on the size of the dictionary.
// The library is compiled with edge coverage; work = edges executed in it (including the templates it instantiates)
// + bytes moved, compared or searched by the memory functions + bytes converted + allocations.
#include <dlfcn.h>
#include <iconv.h>
#include <malloc.h>
#include <new>
#include <set>
#include "tg.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/iconv.hpp"
using namespace tg;
using mc::Ctx;

namespace { uint64_t work_; size_t live_, peak_; bool starve; }
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++work_; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
__attribute__((no_builtin)) void* memcpy(void* d, const void* s, size_t n) { work_ += n; void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r; }
__attribute__((no_builtin)) void* memmove(void* d, const void* s, size_t n) {
  work_ += n; char* a = static_cast<char*>(d); const char* b = static_cast<const char*>(s); if (a == b || !n) return d;
  if (a < b || a >= b + n) { void* t = d; asm volatile("rep movsb" : "+D"(t), "+S"(s), "+c"(n)::"memory"); } else { a += n; b += n; while (n >= 8) { a -= 8; b -= 8; n -= 8; uint64_t t = *reinterpret_cast<const uint64_t*>(b); *reinterpret_cast<uint64_t*>(a) = t; } while (n--) { *--a = *--b; asm volatile("" ::: "memory"); } }
  return d;
}
__attribute__((no_builtin)) void* memset(void* d, int c, size_t n) { work_ += n; void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
__attribute__((no_builtin)) int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = static_cast<const unsigned char*>(x), *b = static_cast<const unsigned char*>(y); size_t i = 0; for (; i < n && a[i] == b[i]; ++i) asm volatile("" ::: "memory"); work_ += i + 1; return i == n ? 0 : a[i] - b[i]; }
void* counted_memchr(const void*, int, size_t) asm("memchr");
__attribute__((no_builtin)) void* counted_memchr(const void* x, int c, size_t n) { const unsigned char* a = static_cast<const unsigned char*>(x); size_t i = 0; for (; i < n && a[i] != static_cast<unsigned char>(c); ++i) asm volatile("" ::: "memory"); work_ += i + 1; return i == n ? nullptr : const_cast<unsigned char*>(a + i); }
__attribute__((no_builtin)) size_t strlen(const char* a) { size_t i = 0; for (; a[i]; ++i) asm volatile("" ::: "memory"); work_ += i + 1; return i; }
__attribute__((no_builtin)) int strcmp(const char* a, const char* b) { size_t i = 0; for (; a[i] && a[i] == b[i]; ++i) asm volatile("" ::: "memory"); work_ += i + 1; return static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]); }
__attribute__((no_builtin)) int strncmp(const char* a, const char* b, size_t n) { size_t i = 0; for (; i < n && a[i] && a[i] == b[i]; ++i) asm volatile("" ::: "memory"); work_ += i + 1; return i == n ? 0 : static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]); }
size_t iconv(iconv_t cd, char** in, size_t* nin, char** out, size_t* nout) {
  static size_t (*real)(iconv_t, char**, size_t*, char**, size_t*) = reinterpret_cast<size_t (*)(iconv_t, char**, size_t*, char**, size_t*)>(dlsym(RTLD_NEXT, "iconv"));
  size_t a = nin ? *nin : 0, b = nout ? *nout : 0; size_t r = real(cd, in, nin, out, nout); work_ += 20 + (nin ? a - *nin : 0) + (nout ? b - *nout : 0); return r;
}
iconv_t iconv_open(const char* t, const char* f) {
  static iconv_t (*real)(const char*, const char*) = reinterpret_cast<iconv_t (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "iconv_open"));
  work_ += 2000; return real(t, f);
}
}
void* operator new(size_t n) { work_ += 40; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_ += malloc_usable_size(p); if (live_ > peak_) peak_ = live_; return p; }
void operator delete(void* p) noexcept { if (p) { live_ -= malloc_usable_size(p); free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace {
const int SMALL = 512, FACTOR = 8;
struct Cost { uint64_t work; size_t peak; };
template <class F> Cost measure(const F& f) { size_t l = live_; peak_ = live_; uint64_t w = work_; f(); return Cost{work_ - w, peak_ - l}; }
std::string show(const Cost& c) { return std::to_string(c.work) + " steps, " + std::to_string(c.peak) + " bytes"; }
// f(n) prepares, what it returns is measured
typedef std::function<std::function<void()>(int)> Family;
void proportional(Ctx& x, const std::string& what, const Family& f, int small = SMALL) {
  Cost c[2];
  for (int k = 0; k < 2; ++k) { std::function<void()> run = f(k ? small * FACTOR : small); c[k] = measure(run); x.step(); }
  std::string log = what + ": size " + std::to_string(small) + " takes " + show(c[0]) + "; " + std::to_string(small * FACTOR) + " takes " + show(c[1]); x.note(log);
  if (c[1].work > c[0].work * (FACTOR * 8 / 5) + 50000) x.fail(log + ": the work is out of proportion");
  if (c[1].peak > c[0].peak * (FACTOR * 8 / 5) + 100000) x.fail(log + ": the memory is out of proportion");
  x.state(what);
}
void independent(Ctx& x, const std::string& what, const Family& f, int small = SMALL) {
  Cost c[2];
  for (int k = 0; k < 2; ++k) { std::function<void()> run = f(k ? small * FACTOR * 2 : small); run(); c[k] = measure(run); x.step(); }
  std::string log = what + ": with " + std::to_string(small) + " it takes " + show(c[0]) + "; with " + std::to_string(small * FACTOR * 2) + " it takes " + show(c[1]); x.note(log);
  if (c[1].work > c[0].work * 5 / 2 + 5000) x.fail(log + ": the work grows with what is not involved");
  if (c[1].peak > c[0].peak * 5 / 2 + 20000) x.fail(log + ": the memory grows with what is not involved");
  x.state(what);
}
std::string num(int i) { char b[16]; snprintf(b, sizeof b, "%07d", i); return b; }
// n copies, @ is the number of the copy
std::string times(const std::string& u, int n) { std::string o; o.reserve(u.size() * static_cast<size_t>(n) + 16); bool at = u.find('@') != std::string::npos; for (int i = 0; i < n; ++i) if (at) { for (char c : u) if (c == '@') o += num(i); else o += c; } else o += u; return o; }
const std::string R2 = "nplurals=2; plural=(n != 1);";
const std::string H8 = header("UTF-8", R2) + "\n", HL = header("ISO-8859-1", R2) + "\n", HB = header("BIG5", R2) + "\n", HJ = header("ISO-2022-JP", R2) + "\n";
const Strings& heads() { static const Strings v = {"", H8, HL, HB, HJ}; return v; }
std::function<void()> load(const std::string& text, const std::string& charset = "UTF-8", bool fuzzy = true) {
  auto d = std::make_shared<Dictionary>(charset); auto in = std::make_shared<std::istringstream>(text); return [=] { POParser::parse("t.po", *in, *d, fuzzy); };
}
const Strings& lines() {
  static const Strings v = {"\n", " \t\n", "# c @\n", "#, fuzzy\n", "#: r\n", "#~ msgid \"o\"\n", "msgid \"a\"\n", "msgid \"a@\"\n", "msgid \"\"\n", "msgid_plural \"as\"\n", "msgctxt \"c\"\n", "msgctxt \"c@\"\n", "msgstr \"A@\"\n", "msgstr \"\"\n", "msgstr[0] \"A\"\n", "msgstr[1] \"B@\"\n", "\"more @\"\n", "  \"in\\n\"\n", "\"cut", "msgid", "msgstr \"open\n", "msgstr \"esc\\\n", "\"Content-Type: text/plain; charset=big5\\n\"\n", "\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n", "msgstr \"\xc3\xa4\xa4\"\n", "garbage @\n", "msgstr[\n", "msgstr[9] \"A\"\n", "\"", "\r\n", "msgid \"a@\"\nmsgstr \"b\"\n\n", "msgid \"a\"\nmsgstr \"b@\"\n\n", "msgctxt \"c@\"\nmsgid \"a\"\nmsgstr \"b\"\n\n", "msgctxt \"c\"\nmsgid \"a@\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n", "#, fuzzy\nmsgid \"f@\"\nmsgstr \"b\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n"};
  return v;
}
// every sequence of at most `len` lines over and over
void repeated(Ctx& x, int len) {
  const std::string& h = heads()[static_cast<size_t>(x.choose(3))]; std::string u; int k = 1 + x.choose(len);
  for (int i = 0; i < k; ++i) u += lines()[static_cast<size_t>(x.choose(static_cast<int>(lines().size())))];
  proportional(x, "a file of " + mc::quote(h, 20) + " and copies of " + mc::quote(u), [&](int n) { return load(h + times(u, n)); }, SMALL / k);
}
// many of one, then many of another
void stretches(Ctx& x) {
  const std::string& h = heads()[static_cast<size_t>(x.choose(2))], &a = lines()[static_cast<size_t>(x.choose(static_cast<int>(lines().size())))], &b = lines()[static_cast<size_t>(x.choose(static_cast<int>(lines().size())))]; bool fuzzy = x.choose(2);
  proportional(x, "a file of " + mc::quote(h, 20) + ", copies of " + mc::quote(a) + " and copies of " + mc::quote(b), [&](int n) { return load(h + times(a, n) + times(b, n), "UTF-8", fuzzy); }, SMALL / 2);
}
// one place of a file that is long
void strings(Ctx& x, int len) {
  static const Strings places = {"msgid \"^\"\nmsgstr \"b\"\n", "msgid \"a\"\nmsgstr \"^\"\n", "msgctxt \"^\"\nmsgid \"a\"\nmsgstr \"b\"\n", "msgid \"a\"\nmsgid_plural \"^\"\nmsgstr[0] \"b\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[1] \"^\"\n", "# ^\nmsgid \"a\"\nmsgstr \"b\"\n", "#, ^\nmsgid \"a\"\nmsgstr \"b\"\n", "^\nmsgid \"a\"\nmsgstr \"b\"\n", "msgid ^\"a\"\nmsgstr \"b\"\n", "msgid \"a\"^\nmsgstr \"b\"\n", "msgid \"a\"\n^\"b\"\nmsgstr \"b\"\n", "msgid \"\"\nmsgstr \"^\"\n", "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=^\\n\"\n", "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: ^\\n\"\n", "msgid \"\"\nmsgstr \"\"\n\"^: x\\n\"\n", "msgid \"a\"\nmsgstr \"\"\n\"^\"\n\"\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[^] \"c\"\n"};
  static const Strings toks = {"a", " ", "\\n", "\\\"", "\\q", "\\\\", "\xc3\xa4", "\xe4", "\xa4\x5c", "\x1b$B$\x22\x1b(B", "\"", "\n", "\"\n\"", "fuzzy", ";", "0", "\t", "#", "plural=", "n ", "\r\n", "\\n\"\n\"Plural-Forms: nplurals=1; plural=0;\\n\"\n\"Content-Type: text/plain; charset=UTF-8\\n", std::string("\0", 1)};
  const std::string& h = heads()[static_cast<size_t>(x.choose(static_cast<int>(heads().size())))], &p = places[static_cast<size_t>(x.choose(static_cast<int>(places.size())))]; static const Strings to = {"UTF-8", "ISO-8859-1", "UTF-16"}; const std::string& cs = to[static_cast<size_t>(x.choose(static_cast<int>(to.size())))]; std::string u; int k = 1 + x.choose(len);
  for (int i = 0; i < k; ++i) u += toks[static_cast<size_t>(x.choose(static_cast<int>(toks.size())))];
  size_t at = p.find('^');
  proportional(x, "a file of " + mc::quote(h, 20) + " and " + mc::quote(p) + " with copies of " + mc::quote(u) + " for " + cs, [&](int n) { std::string t = h + p.substr(0, at) + times(u, n) + p.substr(at + 1); auto f = load(t, cs); return [f] { try { f(); } catch (std::runtime_error&) {} }; }, SMALL * 2);
}
void convert(Ctx& x) {
  static const Strings cs = {"UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-32", "UTF-7", "BIG5", "EUC-JP", "SHIFT_JIS", "ISO-2022-JP", "ISO-2022-KR", "KOI8-R", "GB18030", "ASCII", "ASCII//TRANSLIT"}, us = {"a", "\xc3\xa4", "\xe4\xb8\xad", "a\xc3\xa4", "\xc3\xa4\xe4\xb8\xad", "\xe4", "\xa4\xa4", "\x1b$B$\x22\x1b(B", "+AOQ-", std::string("\0a", 2), std::string("a\0", 2), std::string("\0\0\0a", 4), "\xf0\x9f\x98\x80", "\xd0\xb0\xd0\xb1"};
  const std::string& a = cs[static_cast<size_t>(x.choose(static_cast<int>(cs.size())))], &b = cs[static_cast<size_t>(x.choose(static_cast<int>(cs.size())))], &u = us[static_cast<size_t>(x.choose(static_cast<int>(us.size())))]; int how = x.choose(4);
  if (a.find('/') != std::string::npos) { x.trivial(); return; }
  static const char* hows[] = {"one text of copies of ", "many short texts ", "longer and longer texts of ", "one text that ends badly of copies of "};
  proportional(x, a + " to " + b + ": " + hows[how] + mc::quote(u), [&](int n) -> std::function<void()> {
    auto c = std::make_shared<tinygettext::IConv>(a, b); c->convert(u);
    if (how == 0 || how == 3) { auto t = std::make_shared<std::string>(times(u, n) + (how == 3 ? "\xff" : "")); return [=] { c->convert(*t); }; }
    if (how == 1) return [=] { for (int i = 0; i < n; ++i) c->convert(u); };
    auto ts = std::make_shared<Strings>(); for (int i = 1; i <= n; i += i) ts->push_back(times(u, i)); return [=] { for (auto& t : *ts) c->convert(t); };
  });
}
// ---- lookups ----
enum { PLAIN, PLURAL, CTXT_FEW, CTXT_MANY, CTXT_PLURAL, NSHAPE };
void fill(Dictionary& d, int shape, int n, const std::string& pre = "") {
  d.set_plural_forms(forms(R2));
  for (int i = 0; i < n; ++i) { std::string k = pre + "message " + num(i * 7919 % 1000003), c = shape == CTXT_MANY ? "context " + num(i) : "context " + std::to_string(i % 3); switch (shape) { case PLAIN: d.add_translation(k, "t" + k); break; case PLURAL: d.add_translation(k, k + "s", Strings{"1" + k, "2" + k}); break; case CTXT_FEW: case CTXT_MANY: d.add_translation(c, k, "t" + k); break; default: d.add_translation(c, k, k + "s", Strings{"1" + k, "2" + k}); } }
}
void lookups(Ctx& x) {
  int shape = x.choose(NSHAPE), absent = x.choose(2), fall = x.choose(3), kind = x.choose(6); bool plural = kind == 1 || kind == 3;
  static const char* kinds[] = {"translate", "translate_plural", "translate_ctxt", "translate_ctxt_plural", "add_translation", "add_translation in a context"};
  if (plural && absent) { x.trivial(); return; }                            // reports all candidates
  if (plural && ((kind == 1) != (shape == PLURAL || shape == PLAIN))) { x.trivial(); return; }
  if (plural && fall == 1 && shape != PLURAL && shape != CTXT_PLURAL) { x.trivial(); return; }   // asks the fallback, where it is absent
  independent(x, std::string("64 x ") + kinds[kind] + (absent ? " of absent messages" : "") + " in a dictionary of shape " + std::to_string(shape) + (fall == 1 ? " with a large fallback" : fall ? " that is the fallback" : ""), [&](int n) -> std::function<void()> {
    auto d = std::make_shared<Dictionary>(), f = std::make_shared<Dictionary>(); fill(*d, shape, n); if (fall) fill(*f, shape, fall == 1 ? n : 0, "x"); if (fall == 1) d->addFallback(f.get()); if (fall == 2) f->addFallback(d.get());
    auto at = fall == 2 ? f : d; auto keys = std::make_shared<std::vector<std::pair<std::string, std::string>>>();
    for (int i = 0; i < 64; ++i) { int j = static_cast<int>(static_cast<long>(i) * (n - 1) / 63); keys->push_back({shape == CTXT_MANY ? "context " + num(j) : "context " + std::to_string(j % 3), (absent ? "absent " : "message ") + num(j * 7919 % 1000003)}); }
       return [=] { (void)f; for (auto& k : *keys) switch (kind) { case 0: at->translate(k.second); break; case 1: at->translate_plural(k.second, "ps", 3); break; case 2: at->translate_ctxt(k.first, k.second); break; case 3: at->translate_ctxt_plural(k.first, k.second, "ps", 3); break; case 4: d->add_translation(k.second, "new"); break; default: d->add_translation(k.first, k.second, "new"); } };
  });
}
// a plural lookup of a message that is not there lists the candidates of the dictionaries asked, once each
void candidates(Ctx& x) {
  int shape = x.choose(NSHAPE), fall = x.choose(2), kind = x.choose(2);
  proportional(x, std::string("an absent plural message, shape ") + std::to_string(shape) + (fall ? " with a fallback" : ""), [&](int n) -> std::function<void()> { auto d = std::make_shared<Dictionary>(), f = std::make_shared<Dictionary>(); fill(*d, shape, n); fill(*f, shape, n, "x"); if (fall) d->addFallback(f.get()); return [=] { (void)f; for (int i = 0; i < 16; ++i) if (kind) d->translate_ctxt_plural("context 0", "absent", "absents", 3); else d->translate_plural("absent", "absents", 3); }; });
}
// a chain of fallbacks is walked once
void chains(Ctx& x) {
  int shape = x.choose(NSHAPE), kind = x.choose(4), has = x.choose(3); if ((kind == 1 || kind == 3) && has) { x.trivial(); return; }
  static const char* kinds[] = {"translate", "translate_plural", "translate_ctxt", "translate_ctxt_plural"}, *h[] = {"empty dictionaries", "the message empty in each", "other messages in each"};
  proportional(x, std::string(kinds[kind]) + " of an absent message, a chain of fallbacks, " + h[has] + ", shape " + std::to_string(shape), [&](int n) -> std::function<void()> {
    auto v = std::make_shared<std::vector<std::unique_ptr<Dictionary>>>(); const std::string m = "absent", c = "context 0";
    for (int i = 0; i < n; ++i) { v->emplace_back(new Dictionary()); Dictionary& d = *v->back(); if (has == 2) fill(d, shape, 2); if (has == 1) switch (shape) { case PLAIN: d.add_translation(m, ""); break; case PLURAL: d.add_translation(m, "ms", Strings{"", ""}); break; case CTXT_PLURAL: d.add_translation(c, m, "ms", Strings{"", ""}); break; default: d.add_translation(c, m, ""); } if (i) (*v)[static_cast<size_t>(i) - 1]->addFallback(&d); }
    return [=] { for (int k = 0; k < 4; ++k) { Dictionary& d = *(*v)[0]; switch (kind) { case 0: d.translate(m); break; case 1: d.translate_plural(m, "ms", 3); break; case 2: d.translate_ctxt(c, m); break; default: d.translate_ctxt_plural(c, m, "ms", 3); } } };
  }, 24);
}
// filling, listing
void filling(Ctx& x) {
  int shape = x.choose(NSHAPE), what = x.choose(4); static const char* w[] = {"filling", "filling again", "filling with other values", "listing"};
  proportional(x, std::string(w[what]) + " a dictionary of shape " + std::to_string(shape), [&](int n) -> std::function<void()> {
    auto d = std::make_shared<Dictionary>(); if (what) fill(*d, shape, n); auto v = std::make_shared<size_t>(0);
    if (what == 3) return [=] { d->foreach([&](const std::string&, const Strings& s) { *v += s.size(); }); d->foreach_ctxt([&](const std::string&, const std::string&, const Strings& s) { *v += s.size(); }); };
    if (what == 2) { auto e = std::make_shared<Dictionary>(); return [=] { fill(*d, (shape == PLAIN ? PLURAL : shape == PLURAL ? PLAIN : shape), n); }; }
    return [=] { fill(*d, shape, n); };
  });
}
// long words given to the functions that interpret them
void words(Ctx& x, int len) {
  static const Strings toks = {"a", "de", "_", "DE", ".", "@", "utf8", "german", " ", "A", "\xff", "nplurals=2; plural=(n != 1);", "plural=", "n", "==", "(", ";", "1", "\t", "%", "&&", "Plural-Forms: "};
  static const char* fns[] = {"Language::from_env", "Language::from_name", "Language::from_spec", "Language::from_spec's modifier", "PluralForms::from_string"};
  static const Strings pre = {"", "de", "de_AT", "de_AT.", "de@", "Plural-Forms: ", "Plural-Forms: nplurals=2; plural="};
  int fn = x.choose(5); const std::string& p = pre[static_cast<size_t>(x.choose(static_cast<int>(pre.size())))]; std::string u; int k = 1 + x.choose(len); for (int i = 0; i < k; ++i) u += toks[static_cast<size_t>(x.choose(static_cast<int>(toks.size())))];
  proportional(x, std::string(fns[fn]) + " of " + mc::quote(p) + " and copies of " + mc::quote(u), [&](int n) -> std::function<void()> { auto t = std::make_shared<std::string>(p + times(u, n)); (void)Language::from_env("de"); (void)Language::from_name("x"); (void)forms(R2); return [=] { switch (fn) { case 0: (void)Language::from_env(*t); break; case 1: (void)Language::from_name(*t); break; case 2: (void)Language::from_spec(*t, *t); break; case 3: (void)Language::from_spec("de", "", *t); break; default: (void)PluralForms::from_string(*t); } }; }, SMALL * 4);
}
// ---- managers ----
struct Tree { std::map<std::string, Strings> lists; std::map<std::string, std::string> files; };
struct TreeFS : FileSystem {
  std::shared_ptr<Tree> t; explicit TreeFS(std::shared_ptr<Tree> tree) : t(tree) {}
  std::vector<std::string> open_directory(const std::string& p) override { auto i = t->lists.find(p); return i == t->lists.end() ? Strings() : i->second; }
  std::unique_ptr<std::istream> open_file(const std::string& n) override { auto i = t->files.find(n); if (i == t->files.end()) return nullptr; return std::unique_ptr<std::istream>(new std::istringstream(i->second)); }
};
struct Setup { std::shared_ptr<Tree> t = std::make_shared<Tree>(); std::shared_ptr<DictionaryManager> m; Setup() : m(new DictionaryManager(std::unique_ptr<FileSystem>(new TreeFS(t)))) {} };
// what grows: 0 directories, 1 other files of a directory, 2 fitting files of a directory, 3 entries of the file, 4 languages loaded
const char* const GROWS[] = {"directories", "directories with files", "foreign files", "files of the language", "entries", "directories without the language"};
Setup grown(int what, int n) {
  Setup s; auto file = [&](const std::string& d, const std::string& f, const std::string& c) { s.t->lists[d].push_back(f); s.t->files[d + "/" + f] = c; };
  const std::string small = H8 + "msgid \"a\"\nmsgstr \"b\"\n"; static const char* const foreign[] = {".txt", ".pot", ".po~", "xx.po", "_DE.po"}; static const char* const other[] = {"fr.po", "en.po", "sv.po", "pt_BR.po"};
  int nd = what == 0 || what == 1 || what == 5 ? n : 3;
  for (int i = 0; i < nd; ++i) {
    std::string d = "dir" + num(i); s.t->lists[d];
    if (what == 1 || what >= 2) if (what != 5 || i == 0) { file(d, "de.po", what == 4 ? H8 + times("msgid \"a@\"\nmsgstr \"b\"\n\n", n) : small); file(d, "de_AT.po", small); }
    if (what == 5) for (auto o : other) file(d, o, small);
    if (what == 2) for (int k = 0; k < n; ++k) file(d, num(k) + foreign[k % 5], "");
    if (what == 3) for (int k = 0; k < n; ++k) file(d, (k % 2 ? "de." : "de_AT.") + num(k) + ".po", small);
    s.m->add_directory(d, i % 2);
  }
  return s;
}
void managers(Ctx& x) {
  int what = x.choose(6), op = x.choose(8);
  static const char* ops[] = {"get_dictionary(de)", "get_dictionary(de_AT)", "get_languages", "get_dictionary(fr)", "set_charset, get_dictionary(de)", "adding and removing a directory", "get_dictionary(de) again", "set_language and get_dictionary() back and forth"};
  Family f = [&](int n) -> std::function<void()> {
    Setup s = grown(what, n); auto de = Language::from_spec("de"), at = Language::from_spec("de", "AT"), fr = Language::from_spec("fr"); auto m = s.m;
    switch (op) {
      case 0: return [=] { m->get_dictionary(de); };
      case 1: return [=] { m->get_dictionary(at); };
      case 2: return [=] { m->get_languages(); };
      case 3: return [=] { m->get_dictionary(fr); };
      case 4: m->get_dictionary(at); return [=] { m->set_charset("UTF-8"); m->get_dictionary(de); };
      case 5: m->get_dictionary(at); return [=] { m->add_directory("extra"); m->get_dictionary(de); m->remove_directory("extra"); m->get_dictionary(at); };
      case 6: m->get_dictionary(at); return [=] { for (int i = 0; i < 16; ++i) { m->get_dictionary(de); m->get_dictionary(at); } };
      default: m->get_dictionary(at); m->get_dictionary(fr); return [=] { for (int i = 0; i < 16; ++i) { m->set_language(de); m->get_dictionary(); m->get_dictionary(); m->set_language(at); m->get_dictionary(); m->set_language(fr); m->get_dictionary(); } };
    }
  };
  std::string log = std::string(ops[op]) + " with many " + GROWS[what];
  if (op >= 6) independent(x, log, f, 64); else proportional(x, log, f, 64);
}
// n requests, n changes: each costs the same
void requests(Ctx& x) {
  int op = x.choose(6), set = x.choose(3); static const char* ops[] = {"get_dictionary(de)", "get_dictionary()", "set_charset and get_dictionary(de)", "get_languages", "a directory added, used and removed", "set_use_fuzzy and get_dictionary(de_AT)"};
  proportional(x, std::string("many times ") + ops[op] + ", tree " + std::to_string(set), [&](int n) -> std::function<void()> {
    Setup s = grown(set + 2, 4); auto m = s.m; auto de = Language::from_spec("de"), at = Language::from_spec("de", "AT"); m->set_language(at);
    return [=] { for (int i = 0; i < n; ++i) switch (op) { case 0: m->get_dictionary(de); break; case 1: m->get_dictionary(); break; case 2: m->set_charset("UTF-8"); m->get_dictionary(de); break; case 3: m->get_languages(); break; case 4: m->add_directory("extra" + num(i)); m->get_dictionary(de); m->remove_directory("extra" + num(i)); break; default: m->set_use_fuzzy(i % 2); m->get_dictionary(at); } };
  }, 64);
}
std::vector<mc::Exploration> all(bool t) {
  Logs::silence(); std::vector<mc::Exploration> e;
  auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f, size_t shard = 2) { e.push_back({n, b, f}); e.back().shard_depth = shard; e.back().max_seconds = 2500; };
  int rl = t ? 3 : 2, sl = t ? 3 : 2; std::string sz = "sizes n and " + std::to_string(FACTOR) + "n: ";
  put("repeated", sz + "files of copies of every sequence of at most " + std::to_string(rl) + " of " + std::to_string(lines().size()) + " lines and entries, three headers", [rl](Ctx& x) { repeated(x, rl); }, 3);
  put("stretches", sz + "copies of one line, then copies of another, all pairs", stretches);
  put("strings", sz + "17 places of a file filled with copies of every sequence of at most " + std::to_string(sl) + " of 23 tokens, 5 headers, 3 target sets", [sl](Ctx& x) { strings(x, sl); }, 3);
  put("convert", sz + "14 source and 15 target sets x 14 units, in one text, in many, in growing ones, before an invalid byte", convert);
  put("lookups", "dictionaries of 512 and 8192 entries: 64 lookups and additions", lookups);
  put("candidates", sz + "plural lookups that list candidates", candidates);
  put("chains", sz + "absent messages along chains of fallbacks", chains);
  put("filling", sz + "filling, filling again, listing", filling);
  put("words", sz + "locale strings, names and rules made of copies of every sequence of at most " + std::to_string(t ? 3 : 2) + " of 22 tokens behind 7 beginnings", [t](Ctx& x) { words(x, t ? 3 : 2); }, 3);
  put("managers", "6 ways in which what a manager reads grows x 8 operations", managers);
  put("requests", sz + "requests and changes of the configuration", requests);
  return e;
}
}
mc::Property mc::property = {"C23", "model_checking", "", {"work is measured as edges executed in the library plus bytes moved, compared, searched and converted plus allocations", "the cost of one hash table access does not depend on the size of the table", "the text of diagnostics is not counted: no callbacks are installed"}, all};
