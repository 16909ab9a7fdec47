// C27: memory may run out at any allocation: the call throws or completes, nothing is lost, and everything stays usable.
#include <cstdlib>
#include <iostream>
#include <new>
#include <set>
#include <stdexcept>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tg.hpp"
#include "langs.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"
using namespace tg;
using mc::Ctx;

// ---- the allocator: counts, and fails where it is told to ----
namespace {
bool armed = false; long count = 0, fail_at = -1, fail_at2 = -1; bool from_then_on = false; size_t at_least = 0; long live = 0; long failed = 0;
bool refuse(size_t n) { if (!armed) return false; long k = count++; bool f = at_least ? n >= at_least : k == fail_at || k == fail_at2 || (from_then_on && k > fail_at && fail_at >= 0); failed += f; return f; }
void* get(size_t n) { if (refuse(n)) return nullptr; void* p = malloc(n ? n : 1); if (p) ++live; return p; }
struct Faults { // faults are possible while this lives
  Faults(long k, bool on, size_t least = 0, long k2 = -1) { count = 0; failed = 0; fail_at = k; fail_at2 = k2; from_then_on = on; at_least = least; armed = true; }
  ~Faults() { armed = false; }
};
struct Off { bool was = armed; Off() { armed = false; } ~Off() { armed = was; } };
}
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) { --live; free(p); } }

namespace {
std::string& base() { static std::string b; return b; }
const char* const REAL[] = {"de.po", "de_AT.po", "fr.po"};
struct Scratch {
  pid_t owner = getpid();
  Scratch() { char t[] = "/tmp/mc27.XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); base() = t; for (const char* n : REAL) { FILE* f = fopen((base() + "/" + n).c_str(), "wb"); fprintf(f, "msgid \"a\"\nmsgstr \"a translation that is long in %s\"\n", n); fclose(f); } }
  ~Scratch() { if (getpid() == owner && !base().empty()) { for (const char* n : REAL) unlink((base() + "/" + n).c_str()); rmdir(base().c_str()); } }
};
int reports;   // of files that could not be read
void on_message(const std::string& s) { Off off; if (s.find("failure") != std::string::npos) ++reports; }
const std::string R2 = "nplurals=2; plural=(n != 1);";
const std::string GOOD = header("ISO-8859-1", R2) + "\nmsgid \"a message that does not fit a short string\"\nmsgstr \"\xe9 and its translation that does not fit either\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"the first form of the plural\"\nmsgstr[1] \"the second form of the plural\"\n\nmsgctxt \"a context of some length, too\"\nmsgid \"b\"\nmsgstr \"B\"\n\n# comment\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n";
const std::string FAULTY = header("UTF-8") + "\nmsgid  \"a message that does not fit a short string\"\nmsgstr \"x\" trailing\n\nbad line that goes on for a while\n\nmsgid \"b\"\nmsgstr \"\\q and an invalid \xff byte\"\n\nmsgid \"b\"\nmsgstr \"another text for the same message\"\n\nmsgid \"g\"\nmsgid_plural \"gs\"\nmsgstr[0] \"1\"\nmsgstr[7] \"2\"\n\nmsgid \"\"\nmsgstr \"Plural-Forms: nplurals=9; plural=n;\\nContent-Type: text/html\\n\"\n\nmsgid \"unterminated";
const std::string BIG5 = header("BIG5", R2) + "\nmsgid \"a message that does not fit a short string\"\nmsgstr \"\xb3\x5c and\\n the rest in \xa4\x40\"\n\nmsgid no quote at all in this line\n\nmsgid \"cut\"\nmsgstr \"a character that is cut off \xa4\n\nmsgid\n\nmsgctxt \"a context of some length, too\"\nmsgid \"a message in Big5\"\nmsgid_plural \"messages in Big5\"\nmsgstr[0] \"one \xb3\x5c\"\nmsgstr[1] \"several of \xb3\x5c\xa4\x40\"\n";
std::shared_ptr<Files> files() { auto f = std::make_shared<Files>(); f->dirs["p"] = {{"xx.po", ""}, {"de.po", GOOD}, {"de_AT.po", header("KOI8-R") + "\nmsgid \"k\"\nmsgstr \"\xc1 translation from the file for Austria\"\n"}, {"fr.po", FAULTY}}; f->dirs["a second directory of the search path"] = {{"de.po", header("UTF-8") + "\nmsgid \"n\"\nmsgstr \"replaced by the first directory\"\n\nmsgid \"low\"\nmsgstr \"of the second directory only\"\n"}}; return f; }
struct QuietFS : FileSystem { // a file system that never runs out itself, or does as well
  std::shared_ptr<Files> f; bool own; QuietFS(std::shared_ptr<Files> x, bool o) : f(std::move(x)), own(o) {}
  std::vector<std::string> open_directory(const std::string& p) override { Off off; armed = off.was && own; std::vector<std::string> r; auto i = f->dirs.find(p); if (i != f->dirs.end()) for (auto& e : i->second) r.push_back(e.first); return r; }
  std::unique_ptr<std::istream> open_file(const std::string& n) override { Off off; armed = off.was && own; for (auto& d : f->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == n) return std::unique_ptr<std::istream>(new std::istringstream(e.second)); return std::unique_ptr<std::istream>(); }
};
struct RealFS : UnixFileSystem { std::vector<std::string> open_directory(const std::string& p) override { Off off; return UnixFileSystem::open_directory(p); } };   // the C++ library's directory_iterator ends the process itself when memory runs out
std::string text(Dictionary& d) {
  std::map<std::string, std::string> m; d.foreach([&](const std::string& i, const Strings& v) { std::string o; for (auto& s : v) o += s + "|"; if (!v.empty()) m[i] = o; });
  d.foreach_ctxt([&](const std::string& c, const std::string& i, const Strings& v) { std::string o; for (auto& s : v) o += s + "|"; if (!v.empty()) m[c + "\4" + i] = o; }); std::string o; for (auto& e : m) o += e.first + "=" + e.second + ";\n"; return o + std::to_string(d.get_plural_forms().get_nplural());
}
std::string names(DictionaryManager& m) { std::set<std::string> s; for (auto& l : m.get_languages()) s.insert(l.str()); std::string o; for (auto& n : s) o += n + " "; return o; }
const Language& L(int i) { static const std::vector<Language> v = {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("fr")}; return v[static_cast<size_t>(i)]; }
const std::string LONG = "a message that is nowhere to be found", CTX = "a context of some length, too", Q = "a second directory of the search path";
struct World {
  Dictionary d{"UTF-8"}, other{"ISO-8859-1"}; tinygettext::IConv conv{"UTF-8", "ISO-8859-1"}; DictionaryManager m; DictionaryManager real; Dictionary got; std::string r;
  explicit World(bool own = true) : m(std::unique_ptr<FileSystem>(new QuietFS(files(), own))), real(std::unique_ptr<FileSystem>(new RealFS)) { m.add_directory("p"); m.add_directory(Q); real.add_directory(base()); d.set_plural_forms(forms(R2)); d.add_translation("a message that does not fit a short string", "an earlier translation of this message"); d.add_translation("n", "ns", Strings{"the old first form", "the old second form"}); d.add_translation(CTX, "b", "the old translation in the context"); other.add_translation("low", "from the fallback, which is there for this"); other.addFallback(&d); }
};
// ---- the calls; each returns what its caller sees ----
enum { NAME, SPEC, ENV, LSTR, RULE, GOODFILE, BADFILE, BIG5FILE, BADCHARSET, HITS, MISSES, ADD, ADD_CTXT, ADD_PLURAL, OVERWRITE, CONVERT, RECONFIGURE, NEWCONV, NEWDICT, NEWMANAGER, ADDDIR, ADDFIRST, REMOVEDIR, LOAD, LOAD_AT, LOAD_FR, CURRENT, LANGUAGES, CHARSET, FUZZY, REAL_LOAD, REAL_LANGUAGES, REAL_MISSING, EACH, LOG, DEFAULTLOG, NAMEOFFILE, NCALL };
const char* const CALL[] = {"Language::from_name", "Language::from_spec", "Language::from_env", "Language::str and names", "PluralForms::from_string", "POParser::parse of a good file", "POParser::parse of a faulty file", "POParser::parse of a file in Big5", "POParser::parse of a file of an unknown character set", "lookups of known messages", "lookups of unknown messages", "add_translation", "add_translation with context", "add_translation with plural", "add_translation over another", "IConv::convert", "IConv::set_charsets", "IConv::IConv", "Dictionary::Dictionary", "DictionaryManager::DictionaryManager", "add_directory", "add_directory in front", "remove_directory", "get_dictionary(de)", "get_dictionary(de_AT)", "get_dictionary(fr)", "set_language and get_dictionary()", "get_languages", "set_charset", "set_use_fuzzy", "get_dictionary from real files", "get_languages from real files", "get_languages with a directory that does not exist", "foreach", "a message", "the default log callback", "convertFilename2Language"};
bool loads(int k) { return k == GOODFILE || k == BADFILE || k == BIG5FILE || k == BADCHARSET || (k >= LOAD && k <= CURRENT) || k == REAL_LOAD; }
bool changes(int k) { return loads(k) || (k >= ADD && k <= OVERWRITE) || k == RECONFIGURE || (k >= ADDDIR && k <= REMOVEDIR) || k == CHARSET || k == FUZZY; }
void call(World& w, int k) {
  switch (k) {
    case NAME: w.r = Language::from_name("Norwegian of some sort").str() + Language::from_name("bokm\xc3\xa5l is an alias that is long").str() + Language::from_name("GERMAN").str(); break;
    case SPEC: w.r = Language::from_spec("ca", "ES", "valencia").str() + Language::from_spec("a language that does not exist", "AT").str(); break;
    case ENV: w.r = Language::from_env("ca_ES.a rather long character set@valencia").str() + Language::from_env("sr@a modifier that is long as well").str(); break;
    case LSTR: w.r = L(1).str() + L(1).get_name() + L(1).get_localized_name() + L(1).get_language() + L(1).get_country() + L(1).get_modifier(); break;
    case RULE: { PluralForms p = PluralForms::from_string("Plural-Forms: nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2);"); w.r = std::to_string(p.get_nplural()) + std::to_string(PluralForms::from_string("Plural-Forms: nplurals=3; plural=a rule that is not known;").get_nplural()) + std::to_string(PluralForms::from_string("Plural-Forms: nplurals=2; plural=(n != 1)").get_nplural()); break; }
    case GOODFILE: { std::unique_ptr<std::istringstream> in; { Off o; in.reset(new std::istringstream(GOOD)); } POParser::parse("a file name of some length.po", *in, w.d); w.r = "read"; break; }
    case BADFILE: { std::unique_ptr<std::istringstream> in; { Off o; in.reset(new std::istringstream(FAULTY)); } POParser::parse("bad.po", *in, w.d); w.r = "read"; break; }
    case BIG5FILE: { std::unique_ptr<std::istringstream> in; { Off o; in.reset(new std::istringstream(BIG5)); } POParser::parse("big5.po", *in, w.d); w.r = "read"; break; }
    case BADCHARSET: { std::unique_ptr<std::istringstream> in; { Off o; in.reset(new std::istringstream(header("NO-SUCH-CHARSET") + "\nmsgid \"a\"\nmsgstr \"b\"\n")); } try { POParser::parse("cs.po", *in, w.d); w.r = "read"; } catch (std::runtime_error&) { w.r = "throws"; } break; }
    case HITS: w.r = w.d.translate("a message that does not fit a short string") + w.d.translate_plural("n", "ns", 2) + w.d.translate_ctxt(CTX, "b") + w.other.translate_ctxt(CTX, "b") + w.other.translate("low"); break;
    case MISSES: w.r = w.d.translate(LONG) + w.d.translate_plural(LONG, "the plural of which is not found either", 2) + w.d.translate_ctxt(CTX, LONG) + w.d.translate_ctxt("no such context in this dictionary", LONG) + w.other.translate_ctxt_plural("no such context in this dictionary", LONG, "s", 1) + w.d.translate_plural("a message that does not fit a short string", "s", 7); break;
    case ADD: w.d.add_translation("a new message that does not fit", "and a translation that does not either"); w.r = "added"; break;
    case ADD_CTXT: w.d.add_translation("a new context that does not fit", "and its message, which is long enough", "and its translation, also long enough, and longer than the message"); w.r = "added"; break;
    case ADD_PLURAL: w.d.add_translation("a new plural that does not fit", "s", Strings{"one translation that does not fit", "two translations that do not fit", "three"}); w.d.add_translation(CTX, "a new plural that does not fit", "s", Strings{"the first in the context with length"}); w.r = "added"; break;
    case OVERWRITE: w.d.add_translation("n", "ns", Strings{"the new first form of the plural", "the new second form of the plural", "and one more to make it grow"}); w.d.add_translation(CTX, "b", "the new translation in the context, longer than before"); w.d.add_translation("a message that does not fit a short string", "the new translation of the message, longer than before"); w.d.add_translation("n", "another text for the singular only, longer than those before"); w.r = "changed"; break;
    case CONVERT: w.r = w.conv.convert("ok \xc3\xa9 and a text that is long") + w.conv.convert("bad \xd0\x96 tail") + w.conv.convert("ok"); break;
    case RECONFIGURE: w.conv.set_charsets("koi8-r in a long name that does not exist//TRANSLIT" + 0 * w.r.size(), "utf-8"); break;
    case NEWCONV: { tinygettext::IConv c("ISO-2022-JP", "UTF-8"); w.r = c.convert("\x1b$B%\"\x1b(B"); c.set_charsets("ISO-2022-CN-EXT", "ISO-2022-JP-3"); tinygettext::IConv g("UTF-8", "UTF-32"); w.r += g.convert(LONG); tinygettext::IConv e; w.r += e.convert(LONG); break; }
    case NEWDICT: { Dictionary d("a character set with a long name"); d.addFallback(&w.d); w.r = d.get_charset() + d.translate("n"); break; }
    case NEWMANAGER: { std::unique_ptr<FileSystem> fs; { Off o; fs.reset(new QuietFS(files(), true)); } DictionaryManager m(std::move(fs), "a character set with a long name"), n; m.add_directory(Q); m.set_language(L(0)); w.r = m.get_language().str() + n.get_language().str(); break; }
    case ADDDIR: w.m.add_directory("a third directory that does not exist"); w.r = "done"; break;
    case ADDFIRST: w.m.add_directory("a third directory that does not exist", true); w.r = "done"; break;
    case REMOVEDIR: w.m.remove_directory(Q); w.r = "done"; break;
    case LOAD: w.r = w.m.get_dictionary(L(0)).translate("low"); break;
    case LOAD_AT: w.r = w.m.get_dictionary(L(1)).translate("k"); break;
    case LOAD_FR: w.r = w.m.get_dictionary(L(2)).translate("g"); break;
    case CURRENT: w.m.set_language(L(1)); w.r = w.m.get_dictionary().translate("low") + w.m.get_dictionary().translate("k"); break;
    case LANGUAGES: w.r = names(w.m); break;
    case CHARSET: w.m.set_charset("ISO-8859-1"); w.r = "done"; break;
    case FUZZY: w.m.set_use_fuzzy(false); w.r = "done"; break;
    case REAL_LOAD: w.r = w.real.get_dictionary(L(1)).translate("a"); break;
    case REAL_LANGUAGES: w.r = names(w.real); break;
    case REAL_MISSING: { RealFS fs; std::unique_ptr<std::istream> s = fs.open_file(base() + "/no such file is in this directory"); w.r = s && *s ? "open" : "not open"; std::vector<std::string> v = fs.open_directory(base()); w.r += std::to_string(v.size()); try { v = fs.open_directory(base() + "/no such directory in here"); w.r += "listed"; } catch (std::bad_alloc&) { throw; } catch (std::exception&) { w.r += "throws"; } break; }
    case EACH: { size_t n = 0; w.d.foreach([&](const std::string& s, const Strings&) { n += s.size(); }); w.d.foreach_ctxt([&](const std::string&, const std::string& s, const Strings&) { n += s.size(); }); w.r = std::to_string(n); break; }
    case LOG: { Log l(on_message); l.get() << "a message that is put together from several parts, " << 12345 << " of them" << std::endl; w.r = "sent"; break; }
    case DEFAULTLOG: { std::streambuf* old = std::cerr.rdbuf(nullptr); { Log l(&Log::default_log_callback); l.get() << "something that is nowhere to be seen" << std::endl; } std::cerr.rdbuf(old); std::cerr.clear(); } w.r = "sent"; break;
    default: w.r = w.m.convertFilename2Language("a_language with a name that does not fit.po"); break;
  }
}
// everything that can be observed of a world, asked with memory available
std::string whole(World& w, bool reload) {
  if (reload) { w.m.set_charset("UTF-7"); w.m.set_charset("UTF-8"); w.real.set_charset("UTF-7"); w.real.set_charset("UTF-8"); }
  std::string o; for (int i = 0; i < 3; ++i) o += text(w.m.get_dictionary(L(i))) + "\n"; o += names(w.m) + w.m.get_language().str() + text(w.m.get_dictionary()) + text(w.real.get_dictionary(L(1))) + names(w.real) + w.other.translate("low"); return o;
}
std::string dict(World& w) { return text(w.d) + w.d.get_charset() + w.d.translate("a message that does not fit a short string") + w.d.translate_ctxt(CTX, "b"); }
struct Outcome { bool threw; std::string r, what; };
Outcome attempt(World& w, int k, long at, bool on, size_t least, long at2) {
  Outcome o{false, "", ""}; w.r.clear(); w.r.shrink_to_fit();
  { bool bad = false, other = false; char what[128] = ""; { Faults f(at, on, least, at2); try { call(w, k); } catch (std::bad_alloc&) { bad = true; } catch (std::exception& e) { other = true; strncpy(what, e.what(), 120); } } o.threw = bad || other; o.what = bad ? "bad_alloc" : what; }
  o.r = o.threw ? "" : w.r; w.r.clear(); return o;
}
std::map<int, std::string>& results() { static std::map<int, std::string> m; return m; }
struct Before { std::string whole, dict; };
Before fresh(int after) { static std::map<int, Before> memo; auto i = memo.find(after); if (i != memo.end()) return i->second; Before b; { World w; if (after >= 0) { try { call(w, after); } catch (std::exception&) {} if (after == CHARSET) w.m.set_charset("UTF-8"); } b.dict = dict(w); b.whole = whole(w, true); } memo[after] = b; return b; }
long allocations(int k, bool own) { static std::map<std::pair<int, bool>, long> memo; auto i = memo.find({k, own}); if (i != memo.end()) return i->second; World w(own); attempt(w, k, -1, false, 0, -1); long n = count; World v(own); attempt(v, k, -1, false, 0, -1); if (count > n) n = count; return memo[{k, own}] = n; }
void warm() { static bool done = false; if (done) return; done = true; Logs::silence(); for (int k = 0; k < NCALL; ++k) { World w; Outcome o = attempt(w, k, -1, false, 0, -1); results()[k] = o.threw ? "throws " + o.what : o.r; fresh(k); } fresh(-1); }
// one world in which some calls meet faults; then everything is asked with memory available
void judge(Ctx& x, const std::vector<int>& calls, const std::vector<long>& at, bool on, size_t least, long at2, bool own, bool log) {
  warm(); if (log) { Log::set_log_info_callback(on_message); Log::set_log_warning_callback(on_message); Log::set_log_error_callback(on_message); } else Logs::silence();
  std::string how; long base_live = 0; bool any = false;
  for (int round = 0; round < 3; ++round) { // twice: what the first leaves behind may be kept for good reason
    base_live = live;
    {
      World w(own); std::string h; reports = 0; bool changed = false, loaded = false, half = false, silent = false; std::vector<int> ch;
      for (size_t i = 0; i < calls.size(); ++i) {
        int k = calls[i]; h += std::string(CALL[k]) + ": "; Outcome o = attempt(w, k, at[i], on, least, at2); x.step(); bool f = failed > 0; any |= f; h += f ? (at[i] >= 0 ? "allocation " + std::to_string(at[i]) : "large allocations") + (at2 >= 0 ? " and " + std::to_string(at2) : "") + (on ? " and all later ones fail; " : " fails; ") : "no fault; ";
        if (!f) { if (calls.size() == 1 && k != RECONFIGURE && (o.threw || (o.r != results()[k]))) x.fail(h + " without a fault gives " + o.r + o.what + " instead of " + results()[k]); }
        else if (o.threw && o.what != "bad_alloc" && k != RECONFIGURE && k != REAL_LOAD && k != REAL_LANGUAGES && !loads(k)) x.fail(h + "throws " + o.what);
        else if (!o.threw && !loads(k) && k != CONVERT && k != NEWCONV && k != REAL_LANGUAGES && k != REAL_MISSING && calls.size() == 1 && o.r != results()[k]) x.fail(h + "gives " + mc::quote(o.r) + " instead of " + mc::quote(results()[k]));
        if (changes(k)) { changed = true; ch.push_back(k); } if (loads(k) && f && (!log || on || least || at2 >= 0 || reports)) loaded = true; silent |= loads(k) && !o.threw && !reports && log && !on && !least && at2 < 0; if (o.threw) half = true;
      }
      how = h; (void)half;
      // the dictionary: what was not touched is as before, what was is old, new or untranslated
      std::string d = dict(w); if (calls.size() == 1) {
        int k = calls[0]; std::string a = fresh(-1).dict, b = fresh(k).dict;
        if (!changes(k) || k == RECONFIGURE || (k >= ADDDIR && k != REAL_LOAD) || k == REAL_LOAD) { if (d != a) x.fail(h + "\nthe dictionary has changed to\n" + d + "\nfrom\n" + a); }
        else if (silent && k <= BADCHARSET && d != b) x.fail(h + "\nwithout an exception or a report, and the dictionary holds\n" + d + "\ninstead of\n" + b);
        else if (d != a && d != b) { // messages that stay the same do so, each form of the others is the old or the new one or missing
          static const Strings list = {"\\q and an invalid \xff byte", "the new first form of the plural"}, none; static const std::set<std::string> passing(list.begin(), list.end()); // texts in between
          auto split = [](const std::string& t) { std::map<std::string, Strings> m; std::stringstream s(t); std::string l; while (std::getline(s, l)) { size_t e = l.find('='); if (e == std::string::npos) continue; Strings v; std::stringstream f(l.substr(e + 1)); std::string one; while (std::getline(f, one, '|')) v.push_back(one); if (!v.empty()) v.pop_back(); m[l.substr(0, e)] = v; } return m; };
          auto ma = split(a), mb = split(b), md = split(d); for (auto& e : ma) if (mb[e.first] == e.second && md[e.first] != e.second) x.fail(h + "\nthe message " + e.first + " has changed");
          for (auto& e : md) { if (!ma.count(e.first) && !mb.count(e.first)) x.fail(h + "\nthere is now a message " + e.first); auto& va = ma[e.first]; auto& vb = mb[e.first]; for (size_t i = 0; i < e.second.size(); ++i) if (!e.second[i].empty() && !(i < va.size() && va[i] == e.second[i]) && !(i < vb.size() && vb[i] == e.second[i]) && !passing.count(e.second[i])) x.fail(h + "\nthe message " + e.first + " has now the form " + std::to_string(i) + " " + e.second[i]); }
        }
      }
      // an unfinished load is not kept: asking again gives everything; one that seemed to succeed is read anew after a change of configuration
      std::string all = whole(w, loaded);
      if (calls.size() == 1) { int k = calls[0]; std::string a = fresh(-1).whole, b = fresh(k).whole; bool cs = k == CHARSET || k == FUZZY; if (cs) all = whole(w, true), w.m.set_use_fuzzy(true), all = whole(w, true), a = fresh(-1).whole, b = a; if (!loads(k) || k == CURRENT || (k >= LOAD && k <= REAL_LOAD)) { // lookups that go on to w.d are judged above
          if (k >= ADD && k <= OVERWRITE) { size_t n = all.rfind(' '), m = a.rfind(' '); if (all.substr(0, n) != a.substr(0, m)) x.fail(h + "\nafterwards everything answers\n" + all + "\ninstead of\n" + a); }
          else if (all != a && all != b) x.fail(h + "\nafterwards everything answers\n" + all + "\ninstead of\n" + a + "\nor\n" + b); } }
      (void)changed; for (int k : calls) if (!changes(k) && (calls.size() == 1)) { Outcome o = attempt(w, k, -1, false, 0, -1); if (o.threw || o.r != results()[k]) x.fail(h + "\nasked again gives " + o.r + o.what + " instead of " + results()[k]); }
      if (calls.size() > 1) { // repeated with memory available everything is as if nothing had happened
        static std::map<std::vector<int>, std::pair<std::string, std::string>> memo; auto again = [&](World& v) { for (int k : calls) { try { call(v, k); } catch (std::runtime_error&) {} } }; auto it = memo.find(calls);
        if (it == memo.end()) { World v; again(v); again(v); std::string a = whole(v, true); it = memo.insert({calls, {a, dict(v)}}).first; }
        again(w); std::string now = whole(w, true), dd = dict(w); if (now != it->second.first) x.fail(h + "\nrepeated, everything answers\n" + now + "\ninstead of\n" + it->second.first); bool into = false; for (int k : calls) into |= k == GOODFILE || k == BADFILE || k == BIG5FILE || k == BADCHARSET; if (!into && dd != it->second.second) x.fail(h + "\nrepeated, the dictionary holds\n" + dd + "\ninstead of\n" + it->second.second);
      }
      if (std::string c = w.conv.convert("\xc3\xa9"); calls.size() == 1 && calls[0] != RECONFIGURE && c != w.conv.convert("\xc3\xa9")) x.fail(h + "\nthe converter is no longer the same");
    }
    how += ""; if (live == base_live) break; if (round == 2) x.fail(how + "\nleaves " + std::to_string(live - base_live) + " blocks allocated");
  }
  if (!any) x.trivial(); x.note(how); x.state(how);
}
void single(Ctx& x) { warm(); int k = x.choose(NCALL); bool own = x.choose(2), on = x.choose(2), log = x.choose(2); long n = allocations(k, own); if (n == 0) { x.trivial(); return; } long at = x.choose(static_cast<int>(n + 4)); judge(x, {k}, {at}, on, 0, -1, own, log); }
void sizes(Ctx& x) { warm(); int k = x.choose(NCALL); bool log = x.choose(2); static const size_t S[] = {17, 25, 33, 65, 129, 257, 513, 1025, 4097}; judge(x, {k}, {-1}, false, S[x.choose(9)], -1, true, log); }
void two_faults(Ctx& x, int lim) { warm(); int k = x.choose(NCALL); long n = std::min<long>(allocations(k, true) + 6, lim); if (n < 2) { x.trivial(); return; } long a = x.choose(static_cast<int>(n)), b = x.choose(static_cast<int>(n)); if (b <= a) { x.trivial(); return; } judge(x, {k}, {a}, false, 0, b, true, true); }
void two_calls(Ctx& x, int lim) { warm(); int k = x.choose(NCALL), l = x.choose(NCALL); long n = std::min<long>(allocations(k, true), lim), m = std::min<long>(allocations(l, true), lim); bool on = x.choose(2); long a = x.choose(static_cast<int>(n + 1)) - 1, b = x.choose(static_cast<int>(m + 1)) - 1; if (a < 0 && b < 0) { x.trivial(); return; } judge(x, {k, l}, {a, b}, on, 0, -1, true, true); }
// the first use of the library in a process, which fills its tables
std::string first_use(int k) { switch (k) { case 0: return Language::from_env("de_AT").str(); case 1: return Language::from_name("german").str(); case 2: return std::to_string(forms(R2).get_nplural()); case 3: { Dictionary d; parse(GOOD, d); return text(d); } default: { DictionaryManager m(std::unique_ptr<FileSystem>(new QuietFS(files(), true))); m.add_directory("p"); m.set_language(Language::from_name("german")); return text(m.get_dictionary()) + names(m); } } }
struct Probe { long n, live; std::string r; };
Probe& probe(int k) { static std::map<int, Probe> memo; auto i = memo.find(k); if (i != memo.end()) return i->second; int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); pid_t p = fork(); if (p == 0) { Logs::silence(); long before = live; std::string r; long n; { Faults f(-1, false); r = first_use(k); n = count; } r = first_use(k); r.shrink_to_fit(); long l; { std::string().swap(r); l = live - before; } r = first_use(k); std::string o = std::to_string(n) + " " + std::to_string(l) + " " + r; (void)!write(fd[1], o.data(), o.size()); _exit(0); } close(fd[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n)); close(fd[0]); int st; waitpid(p, &st, 0); Probe q; char* e; q.n = strtol(s.c_str(), &e, 10); q.live = strtol(e, &e, 10); q.r = *e ? e + 1 : ""; if (st || q.r.size() < 1) throw mc::Failure{"", "the first use of the library does not end well"}; return memo[k] = q; }
void first(Ctx& x, int stride) {
  int k = x.choose(5); Probe* q; try { q = &probe(k); } catch (mc::Failure& f) { x.fail(f.msg); } bool on = x.choose(2); long at = static_cast<long>(x.choose(static_cast<int>(q->n / stride + 1))) * stride; std::string how = "first use " + std::to_string(k) + ", allocation " + std::to_string(at) + (on ? " and all later ones fail" : " fails"); x.note(how);
  Logs::silence(); long before = live; bool bad = false; { Faults f(at, on); try { std::string r = first_use(k); } catch (std::bad_alloc&) { bad = true; } } x.step();
  for (int i = 0; i < 2; ++i) { std::string r = first_use(k); if (r != q->r) x.fail(how + ": the next use gives\n" + r + "\ninstead of\n" + q->r); } long l = live - before;
  std::string r = first_use(k); if (!bad && failed && k < 3) {} if (l != q->live) x.fail(how + ": " + std::to_string(l) + " blocks stay allocated, " + std::to_string(q->live) + " without the fault"); x.state(how);
}
std::vector<mc::Exploration> all(bool t) {
  static Scratch scratch; std::vector<mc::Exploration> e; auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f) { e.push_back({n, b, f}); e.back().max_seconds = t ? 3000 : 400; e.back().shard_depth = 3; };
  put("first-use", "5 first uses of the library in a process, every allocation fails, alone or with all later ones", [](Ctx& x) { first(x, 1); }); e.back().fork_each = true; e.back().exec_seconds = 30; e.back().shard_depth = 3;
  std::string nc = std::to_string(NCALL);
  put("single", nc + " calls x every one of their allocations (those of the file system given included or not) fails, alone or with all later ones; with and without log callbacks", single);
  put("sizes", nc + " calls, all allocations of at least one of 9 sizes fail", sizes);
  int lim = t ? 600 : 250; put("two-faults", nc + " calls, all pairs of the first " + std::to_string(lim) + " allocations fail", [lim](Ctx& x) { two_faults(x, lim); });
  int l2 = t ? 80 : 12; put("two-calls", "all pairs of calls on the same objects, one of the first " + std::to_string(l2) + " allocations of each (or none of one) fails, alone or with the later ones", [l2](Ctx& x) { two_calls(x, l2); });
  return e;
}
}
mc::Property mc::property = {"C27", "model_checking", "", {"the C++ library's directory_iterator, which ends the process itself when memory runs out, is spared", "only operator new fails: the C library's own allocations (iconv_open, opening files) do not", "a message to a call-back may be lost or cut short"}, all};
