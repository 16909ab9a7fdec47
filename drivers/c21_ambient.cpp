// C21: results neither depend on nor alter process-wide state: locale, environment, errno, stream settings.
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mgr.hpp"
#include "exercise.hpp"
#include "langs.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"
extern "C" char** environ;
using namespace mgr;
using mc::Ctx;

namespace {
// ---- scratch: compiled locales and a few real files, made by the parent ----
const char* const NAMES[] = {"tr_TR.ISO-8859-9", "tr_TR.UTF-8", "az_AZ.UTF-8", "de_DE.UTF-8", "en_IN.UTF-8", "lt_LT.ISO-8859-13", "ja_JP.EUC-JP", "zh_TW.BIG5"};
const int NNAMES = 8;
std::string& base() { static std::string b; return b; }
void clear(const std::string& d, int level) {
  if (level > 5 || d.compare(0, 9, "/tmp/mc21") != 0) return; Strings n; DIR* h = opendir(d.c_str()); if (!h) return;
  while (dirent* e = readdir(h)) { std::string s = e->d_name; if (s != "." && s != "..") n.push_back(s); } closedir(h);
  for (auto& e : n) { std::string p = d + "/" + e; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { clear(p, level + 1); rmdir(p.c_str()); } else unlink(p.c_str()); }
}
void write_file(const std::string& p, const std::string& b) { FILE* f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("cannot create " + p); fwrite(b.data(), 1, b.size(), f); fclose(f); }
struct Scratch {
  pid_t owner = getpid();
  Scratch() {
    char t[] = "/tmp/mc21.XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); base() = t;
    std::vector<pid_t> kids; for (auto n : NAMES) { pid_t p = fork(); if (p == 0) { std::string s = n, in = s.substr(0, s.find('.')), cs = s.substr(s.find('.') + 1), out = base() + "/" + s; int nul = 1; if (freopen("/dev/null", "w", stdout) && freopen("/dev/null", "w", stderr)) nul = 0; (void)nul; execlp("localedef", "localedef", "-c", "-i", in.c_str(), "-f", cs.c_str(), out.c_str(), static_cast<char*>(nullptr)); _exit(127); } kids.push_back(p); }
    for (pid_t p : kids) { int s; waitpid(p, &s, 0); }
    for (auto n : NAMES) { std::string p = base() + "/" + n + "/LC_CTYPE"; if (access(p.c_str(), R_OK)) throw std::runtime_error(std::string("localedef made no locale ") + n); }
    setenv("LOCPATH", t, 1);
    std::string d = base() + "/po"; mkdir(d.c_str(), 0700); for (const char* n : {"it_it.po", "de_li.po", "hi_in.po", "\xddt.po", "i\xc4\xb1.po", "FI.PO", "is_IS.po"}) write_file(d + "/" + n, header("iso-8859-1") + "\nmsgid \"who\"\nmsgstr \"" + "\xee " "i\"\n");
  }
  ~Scratch() { if (getpid() == owner && !base().empty()) { clear(base(), 0); rmdir(base().c_str()); } }
};
// ---- scenarios: everything observable as one string ----
std::string text(const std::string& s) { return mc::quote(s, 100000); }
std::string logs() { std::string o; for (auto& m : Logs::all()) o += std::to_string(m.first) + text(m.second); Logs::clear(); return o; }
std::string language(const Language& l) { return l ? l.str() + "/" + l.get_name() + "/" + l.get_localized_name() + "/" + l.get_language() + "/" + l.get_country() + "/" + l.get_modifier() : "none"; }
std::string cased(std::string s, int form) { for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (form == 1 || (form == 2 && i == 0) || (form == 3 && i % 2)) { if (c >= 'a' && c <= 'z') s[i] = static_cast<char>(c - 32); } else if (c >= 'A' && c <= 'Z' && form != 4) s[i] = static_cast<char>(c + 32); } return s; }
const Strings& charsets() { static const Strings v = {"iso-8859-1", "iso-8859-9", "koi8-r", "big5", "utf-8", "iso-2022-jp", "windows-1254", "cp1251", "tis-620", "utf-16", "gb18030", "shift_jis", "no-such-i"}; return v; }
std::string load(const std::string& po, const std::string& to = "UTF-8", const std::string& name = "dir/i.po") { std::string o; try { Dictionary d(to); parse(po, d, name); o = show(snap(d)); Snap s = snap(d); o += std::to_string(s.hash()); } catch (std::exception& e) { o = std::string("throws ") + e.what(); } return o + logs(); }
const std::string R2 = "nplurals=2; plural=(n != 1);";
const int NSC = 20;
std::string scenario(int k) {
  Logs::clear();
  std::string o;
  switch (k) {
    case 0: for (auto& l : ref::LANGS) { Language a = Language::from_spec(l.l, l.c, l.m); o += language(a) + language(Language::from_env(a.str())) + language(Language::from_name(a.str() + ".iso-8859-9")); } break;
    case 1: for (auto& a : ref::ALIASES) for (int f = 0; f < 4; ++f) o += language(Language::from_name(cased(a.name, f))) + ";"; break;
    case 2: { auto f = std::make_shared<Files>(); for (auto& l : ref::LANGS) if (*l.c) for (int c = 0; c < 3; ++c) put(*f, "p", std::string(l.l) + "_" + (c == 2 ? std::string(1, l.c[0]) + cased(l.c + 1, 0) : cased(l.c, c)) + (*l.m ? std::string("@") + l.m : "") + ".po"); DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f))); m.add_directory("p"); std::set<std::string> s; for (auto& l : m.get_languages()) s.insert(l.str()); for (auto& n : s) o += n + ";"; break; }
    case 3: for (const char* n : {"it_it", "de_li", "hi_in", "ga_ie", "is_is", "fi_fi", "id_id", "he_il", "sl_si", "ti_et"}) { auto f = std::make_shared<Files>(); put(*f, "p", std::string(n) + ".po"); put(*f, "p", std::string(n).substr(0, 2) + ".po"); DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f))); m.add_directory("p"); Language l = Language::from_env(std::string(n).substr(0, 3) + cased(n + 3, 1)); if (l) { o += show(snap(m.get_dictionary(l))); m.set_language(l); o += m.get_dictionary().translate("who"); } o += logs(); } break;
    case 4: for (auto& cs : charsets()) for (int f = 0; f < 4; ++f) o += load(header(cased(cs, f)) + "\nmsgid \"a\"\nmsgstr \"i I \xa5\\\xe9\xa7\"\n\nmsgid \"b\"\nmsgstr \"B\"\n") + ";"; break;
    case 5: for (auto& cs : charsets()) for (int f = 0; f < 4; ++f) o += load(header("UTF-8") + "\nmsgid \"a\"\nmsgstr \"i I \xc3\xa9 \xc4\xb1\xc4\xb0 \xe6\x97\xa5\"\n", cased(cs, f)) + ";"; break;
    case 6: for (auto& h : ref::plural_headers()) for (int f = 0; f < 3; ++f) { std::string t = h; if (f == 1) { t.clear(); for (char c : h) { t += c; if (c == ';' || c == '?') t += "\t "; } } if (f == 2) t = cased(h, 1); PluralForms p = forms(t); o += std::to_string(p.get_nplural()); if (p) for (int n = -3; n < 130; ++n) o += std::to_string(p.get_plural(n)); } break;
    case 7: for (int lines : {10, 999, 1000, 1234, 10000, 12345, 100000}) { std::string t(static_cast<size_t>(lines), '\n'); o += load(t + "msgid \"bad\n\nmsgid  \"x\"\nmsgstr \"\\i\" i\n"); } break;
    case 8: for (int b = 1; b < 256; ++b) { std::string c(1, static_cast<char>(b)); if (b == '\n') continue; o += load("msgid \"a\"\nmsgstr \"A\"\n" + c + "\nmsgid \"b\"" + c + "\nmsgstr" + c + "\"B\"\n\n" + c + "# x\nmsgid \"c\"\nmsgstr \"C\"\n" + c + "\"D\"\n\n#" + c + "fuzzy\nmsgid \"d\"\nmsgstr \"D\"\n\nmsgid \"e\"\nmsgid_plural \"es\"\nmsgstr[" + c + "] \"E\"\n\nmsgid \"f\"\nmsgstr \"\\" + c + "\"\n"); } break;
    case 9: { Dictionary d; d.set_plural_forms(forms(R2)); for (int i = 0; i < 1500; ++i) d.add_translation("id " + std::to_string(i), "is", Strings{"i"}); d.add_translation("id 7", "is", Strings{"i", "j"}); d.add_translation("c", "id", "I"); d.add_translation("c", "id", "\xdd"); o = d.translate_plural("id 1234", "is", 5) + d.translate_plural("id 7", "is", 1234567) + d.translate("ID 7") + d.translate_ctxt("c", "id") + d.translate_ctxt("C", "id") + logs(); break; }
    case 10: { UnixFileSystem fs; std::multiset<std::string> s; for (auto& n : fs.open_directory(base() + "/po")) s.insert(n); for (auto& n : s) { o += text(n); auto in = fs.open_file(base() + "/po/" + n); std::string b((std::istreambuf_iterator<char>(*in)), std::istreambuf_iterator<char>()); o += text(b); } try { o += std::to_string(fs.open_directory(base() + "/none").size()); } catch (std::exception& e) { o += "exception"; } break; }
    case 11: { DictionaryManager m; m.add_directory(base() + "/po"); std::set<std::string> s; for (auto& l : m.get_languages()) s.insert(l.str()); for (auto& n : s) o += n; for (const char* n : {"it_IT", "de_LI", "hi_IN", "is_IS", "it"}) { Language l = Language::from_env(n); if (l) o += show(snap(m.get_dictionary(l))); } std::multiset<std::string> v; for (auto& g : Logs::all()) v.insert(g.second); Logs::clear(); for (auto& g : v) o += g; break; }
    case 12: for (auto& a : charsets()) for (int f = 0; f < 3; ++f) { try { tinygettext::IConv c(cased(a, f), "UTF-8"); o += text(c.convert("i\xa5\xe9 I")); c.set_charsets("utf-8", cased(a, 2 - f)); o += text(c.convert("\xc3\xa9")); } catch (std::exception& e) { o += std::string("throws ") + (std::string(e.what()).empty() ? "nothing" : "text"); } o += logs(); } break;
    case 13: for (auto& a : ref::LANGS) for (const char* b : {"it_IT", "de", "sr_RS@latin", "tr_TR", "en_IN"}) { Language l = Language::from_env(b); if (l) o += std::to_string(Language::match(l, Language::from_spec(a.l, a.c, a.m))); } break;
    case 15: for (const char* e : {"", "_", ".", "@", "C", "POSIX", "C.UTF-8", "xx", "DE", "_DE", ".UTF-8", "@latin", "tr", "de_", "de.", "default", "en_US.UTF-8"}) o += language(Language::from_env(e)) + language(Language::from_name(e)) + language(Language::from_spec(e)) + language(Language::from_spec("de", e, e)) + ";";
      { auto f = std::make_shared<Files>(); for (const char* n : {"tr.po", "tr_TR.po", "de.po", "en.po", ".po", "C.po", "_.po", "default.po"}) put(*f, "p", n); DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f))); m.add_directory("p"); m.add_directory(""); m.add_directory("none"); o += show(snap(m.get_dictionary())) + m.get_dictionary().translate("who") + m.get_language().str() + std::to_string(m.get_languages().size()); Logs::clear(); m.set_language(Language::from_name("")); o += show(snap(m.get_dictionary())); m.set_language(Language::from_env("tr_CY")); o += show(snap(m.get_dictionary())) + logs(); } break;
    case 16: for (const char* h : {"Language: de\\n", "Content-Type: text/plain; charset=CHARSET\\n", "Content-Type: text/plain; charset=\\n", "Content-Type: text/plain\\n", "Content-Type: text/plain; charset=charset\\n", "Content-Type: text/html; charset=tr_TR.UTF-8\\n", "", "\\n"}) for (const char* to : {"UTF-8", "ISO-8859-9", "UTF-16"}) o += load(std::string("msgid \"\"\nmsgstr \"") + h + "\"\n\nmsgid \"a\"\nmsgstr \"\xc3\xa9\xc4\xb1\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"\xc4\xb0\"\n\nmsgid \"\"\nmsgstr \"" + h + "\"\n", to) + load("msgid \"a\"\nmsgstr \"\xc3\xa9\xc4\xb1\"\n", to) + load("\xef\xbb\xbfmsgid \"a\"\nmsgstr \"\xfe\"\n", to); break;
    case 17: { std::ostringstream err; std::streambuf* old = std::cerr.rdbuf(err.rdbuf()); auto cb = &Log::default_log_callback; auto i = Log::log_info_callback, w = Log::log_warning_callback, r = Log::log_error_callback; Log::set_log_info_callback(cb); Log::set_log_warning_callback(cb); Log::set_log_error_callback(cb);
      { Dictionary d; parse(std::string(1500, '\n') + "msgid \"a\"\nmsgstr \"\\i\xff\"\n\nbad\n", d); d.translate("x"); d.add_translation("a", "b"); } cb(""); cb("no line end"); cb(std::string(3, '\0')); Log::set_log_warning_callback(nullptr); Log::set_log_error_callback(nullptr); { Dictionary d; parse("bad\n", d); d.translate("y"); }
      std::cerr.rdbuf(old); Log::set_log_info_callback(nullptr); Log::set_log_warning_callback(nullptr); Log::set_log_error_callback(nullptr); Log::set_log_info_callback(i); Log::set_log_warning_callback(w); Log::set_log_error_callback(r); o = text(err.str()); break; }
    case 18: o = exercise::odd() + logs(); break;
    case 19: o = exercise::troubled() + exercise::collisions() + logs(); break;
    default: { auto f = std::make_shared<Files>(); f->dirs["p"] = {{"tr.po", header("ISO-8859-9", "nplurals=1; plural=0;") + "\nmsgid \"title\"\nmsgstr \"I\xfd\xddi\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"1.234,5\"\n"}, {"tr_tr.po", header("windows-1254") + "\nmsgid \"TITLE\"\nmsgstr \"\xddI\"\n"}}; DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f)), "utf-8"); m.add_directory("p"); m.set_language(Language::from_name("Turkish")); Dictionary& d = m.get_dictionary(); o = language(m.get_language()) + text(d.translate("title")) + text(d.translate("TITLE")) + text(d.translate_plural("n", "ns", 12345)) + text(d.translate_ctxt("T\xc4\xb0", "title")) + logs(); m.set_charset("iso-8859-9"); o += text(m.get_dictionary().translate("title")) + logs(); break; }
  }
  return o;
}
std::string in_child(const std::function<std::string()>& fn) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); pid_t p = fork();
  if (p == 0) { close(fd[0]); std::string r = fn(); size_t o = 0; while (o < r.size()) { ssize_t n = write(fd[1], r.data() + o, r.size() - o); if (n <= 0) break; o += static_cast<size_t>(n); } _exit(0); }
  close(fd[1]); std::string r; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n)); close(fd[0]); int s; waitpid(p, &s, 0);
  if (s) return "ends with status " + std::to_string(s); return r;
}
std::vector<std::string>& plain() { static std::vector<std::string> v; return v; }
void differ(Ctx& x, const std::string& how, int k, const std::string& got) {
  const std::string& w = plain()[static_cast<size_t>(k)]; if (got == w) return; size_t i = 0; while (i < got.size() && i < w.size() && got[i] == w[i]) ++i; size_t b = i < 60 ? 0 : i - 60;
  x.fail(how + ": scenario " + std::to_string(k) + " differs at byte " + std::to_string(i) + "\n..." + got.substr(b, 160) + "\ninstead of\n..." + w.substr(b, 160));
}
// ---- ambient state ----
struct Thousands : std::numpunct<char> { char do_thousands_sep() const override { return 'i'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "false"; } char do_decimal_point() const override { return '\\'; } };
struct OddCtype : std::ctype<char> { static const mask* table() { static mask t[256]; for (int i = 0; i < 256; ++i) t[i] = i % 3 ? space | alpha : digit; return t; } OddCtype() : std::ctype<char>(table()) {} char do_toupper(char c) const override { return c == 'i' ? '!' : c; } char do_tolower(char c) const override { return c == 'I' ? '!' : c; } char do_widen(char c) const override { return c; } };
struct OddCollate : std::collate<char> { int do_compare(const char*, const char*, const char*, const char*) const override { return 0; } long do_hash(const char*, const char*) const override { return 1; } };
const int NSET = 1 + 3 * NNAMES + 3;
std::string set_locale(int k) {
  if (k == 0) { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); uselocale(LC_GLOBAL_LOCALE); return "the C locale"; }
  --k; if (k < 3 * NNAMES) {
    std::string n = NAMES[k % NNAMES]; switch (k / NNAMES) {
      case 0: if (!setlocale(LC_ALL, n.c_str())) throw std::runtime_error("setlocale " + n); return "setlocale(" + n + ")";
      case 1: std::locale::global(std::locale(n)); return "std::locale::global(" + n + ")";
      default: { locale_t l = newlocale(LC_ALL_MASK, n.c_str(), nullptr); if (!l) throw std::runtime_error("newlocale " + n); uselocale(l); return "uselocale(" + n + ")"; }
    }
  }
  k -= 3 * NNAMES; std::locale c = std::locale::classic();
  if (k == 0) { std::locale::global(std::locale(c, new Thousands)); return "global locale with grouped digits"; }
  if (k == 1) { std::locale::global(std::locale(c, new OddCtype)); return "global locale with odd character classes"; }
  std::locale::global(std::locale(c, new OddCollate)); return "global locale in which all strings collate equal";
}
int open_fds() { int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
std::string ios(std::ios& s) { std::ostringstream o; o.imbue(std::locale::classic()); o << s.flags() << "," << s.precision() << "," << s.width() << "," << static_cast<int>(s.fill()) << "," << s.exceptions() << "," << s.getloc().name() << "," << s.tie() << "," << static_cast<void*>(s.rdbuf()) << "," << s.rdstate(); return o.str(); }
std::string ambient() {
  std::string o = std::string("C locale ") + setlocale(LC_ALL, nullptr) + "\nglobal locale " + std::locale().name() + (std::has_facet<std::numpunct<char>>(std::locale()) ? std::use_facet<std::numpunct<char>>(std::locale()).grouping() : "") + "\n";
  { std::ostringstream s; s.imbue(std::locale::classic()); s << "thread locale " << static_cast<void*>(uselocale(nullptr)) << "\nterminate " << reinterpret_cast<void*>(std::get_terminate()) << "\nnew handler " << reinterpret_cast<void*>(std::get_new_handler()); o += s.str() + "\n"; }
  o += "environment"; for (char** e = environ; *e; ++e) o += std::string(" ") + *e; o += "\n";
  char b[4096]; o += std::string("directory ") + (getcwd(b, sizeof b) ? b : "gone") + "\n"; mode_t m = umask(0); umask(m); o += "umask " + std::to_string(m) + "\nsignals"; sigset_t ss; sigprocmask(SIG_SETMASK, nullptr, &ss);
  for (int i = 1; i < 32; ++i) { struct sigaction a; sigaction(i, nullptr, &a); o += " " + std::to_string(reinterpret_cast<size_t>(a.sa_handler)) + (sigismember(&ss, i) == 1 ? "b" : ""); } o += "\n";
  for (int r = 0; r < 10; ++r) { struct rlimit l; getrlimit(static_cast<__rlimit_resource_t>(r), &l); o += std::to_string(l.rlim_cur) + "/" + std::to_string(l.rlim_max) + " "; }
  o += "\nrounding " + std::to_string(fegetround()) + "\nstreams " + ios(std::cin) + " " + ios(std::cout) + " " + ios(std::cerr) + " " + ios(std::clog) + "\nopen files " + std::to_string(open_fds()) + "\n"; return o;
}
std::string run(Ctx& x, int k, const std::string& how) {
  for (std::ios* s : {static_cast<std::ios*>(&std::cin), static_cast<std::ios*>(&std::cout), static_cast<std::ios*>(&std::cerr), static_cast<std::ios*>(&std::clog)}) s->clear();
  std::string a = ambient(); std::string r = scenario(k); x.step(); std::string b = ambient();
  if (a != b) x.fail(how + ": scenario " + std::to_string(k) + " alters process-wide state\n" + b + "before:\n" + a); return r;
}
// one locale setting from the first use on
void locales(Ctx& x) { int s = x.choose(NSET), k = x.choose(NSC); std::string how = set_locale(s); x.note(how + ", scenario " + std::to_string(k)); Logs::install(true); differ(x, how, k, run(x, k, how)); x.state(static_cast<uint64_t>(s * NSC + k)); }
// the locale changes between uses
void switches(Ctx& x, int len, const std::vector<int>& sets) {
  std::string how; Logs::install(true);
  for (int i = 0; i < len; ++i) { int s = sets[static_cast<size_t>(x.choose(static_cast<int>(sets.size())))], k = x.choose(NSC); if (s) set_locale(0); how += (i ? ", then " : "") + set_locale(s) + " scenario " + std::to_string(k); differ(x, how, k, run(x, k, how)); }
  x.note(how); x.state(how);
}
// the locale changes inside of one history on the same objects
void objects(Ctx& x, int len) {
  static const std::vector<int> sets = {0, 1, 2, NNAMES + 1, 2 * NNAMES + 2, NSET - 3, NSET - 2}; set_locale(0); Logs::install(true); std::string how;
  auto f = std::make_shared<Files>(); f->dirs["p"] = {{"it.po", header("iso-8859-1", R2) + "\nmsgid \"who\"\nmsgstr \"\xee\"\n"}, {"it_it.po", header("big5") + "\nmsgid \"title\"\nmsgstr \"\xa5\\\"\n"}};
  DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(f))); m.add_directory("p"); Dictionary d("iso-8859-9"); tinygettext::IConv c("iso-8859-1", "utf-8");
  for (int i = 0; i < len; ++i) {
    if (int s = sets[static_cast<size_t>(x.choose(7))]) { set_locale(0); how += set_locale(s) + ", "; } else set_locale(0);
    int op = x.choose(7); x.step(); how += std::to_string(op) + "; ";
    if (op == 0) m.set_charset(i % 2 ? "utf-8" : "UTF-8");
    if (op == 1) { Language l = Language::from_name("ITALIAN"); if (!l || l.str() != "it_IT") x.fail(how + " ITALIAN is " + language(l)); m.set_language(l); }
    if (op == 2) { Language l = Language::from_env("it_IT"); std::string a = m.get_dictionary(l).translate("who"), b = m.get_dictionary(l).translate("title"); if (a != "\xc3\xae" || b != "\xe5\x8a\x9f") x.fail(how + " translations are " + text(a) + text(b)); }
    if (op == 3) { Dictionary n("iso-8859-9"); parse(header("windows-1254") + "\nmsgid \"i\"\nmsgstr \"\xfd\xdd\"\n", n); if (n.translate("i") != "\xfd\xdd") x.fail(how + " windows-1254 gives " + text(n.translate("i"))); }
    if (op == 4) { if (c.convert("\xee") != "\xc3\xae") x.fail(how + " converts to " + text(c.convert("\xee"))); c.set_charsets("iso-8859-1", "utf-8"); if (c.convert("\xee") != "\xc3\xae") x.fail(how + " converts to " + text(c.convert("\xee"))); }
    if (op == 5) { if (m.get_languages().size() != 2) x.fail(how + " " + std::to_string(m.get_languages().size()) + " languages"); }
    if (op == 6) { Logs::clear(); parse(std::string(1233, '\n') + "bad\n", d, "f"); if (Logs::all().size() != 1 || Logs::all()[0].second.compare(0, 7, "f:1234:")) x.fail(how + " the diagnostic is " + logs()); }
  }
  set_locale(0); x.note(how); x.state(how);
}
// environment variables, with and without adopting the locale they name
void environment(Ctx& x) {
  static const char* const V[] = {"LANG", "LC_ALL", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE", "OUTPUT_CHARSET", "CHARSET", "TEXTDOMAINDIR", "NLSPATH", "POSIXLY_CORRECT", "TMPDIR", "HOME", "TZ", "PWD"};
  static const char* const W[] = {"", "tr_TR.UTF-8", "C", "de_DE:en", "/nowhere", "\xff", "de"};
  int a = x.choose(14), b = x.choose(14); if (b > a) { x.trivial(); return; } std::string how;
  for (int i : {a, b}) { if (i == b && a == b && !how.empty()) break; const char* v = W[x.choose(7)]; setenv(V[i], v, 1); how += std::string(V[i]) + "=" + text(v) + " "; }
  bool adopt = x.choose(2); if (adopt) { setlocale(LC_ALL, ""); how += "setlocale(LC_ALL, \"\") "; }
  x.note(how); Logs::install(true); for (int k = 0; k < NSC; ++k) { if (k == 4 || k == 7 || k == 8 || k == 0 || k == 13) continue; differ(x, how, k, run(x, k, how)); } x.state(how);
}
// errno, working directory, umask, closed standard input, rounding mode, settings of the standard streams
void surroundings(Ctx& x) {
  int e = x.choose(6), w = x.choose(3), u = x.choose(3), c = x.choose(2), r = x.choose(2), s = x.choose(3), k = x.choose(NSC); std::string how;
  static const int E[] = {0, E2BIG, EILSEQ, EINVAL, EBADF, ENOMEM};
  if (w == 1 && chdir("/")) throw std::runtime_error("chdir"); if (w == 2) { std::string d = base() + "/gone" + std::to_string(getpid()); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) throw std::runtime_error("chdir"); rmdir(d.c_str()); }
  umask(u == 0 ? 022 : u == 1 ? 0 : 0777); if (c) close(0); if (r) fesetround(FE_UPWARD);
  if (s) for (std::ostream* o : {&std::cerr, &std::cout, &std::clog}) { o->setf(s == 1 ? std::ios::hex : std::ios::showpos, std::ios::basefield); o->fill('i'); o->precision(1); if (s == 2) o->imbue(std::locale(std::locale::classic(), new Thousands)); }
  how = "errno " + std::to_string(E[e]) + ", directory " + std::to_string(w) + ", umask " + std::to_string(u) + ", stdin " + (c ? "closed" : "open") + ", rounding " + std::to_string(r) + ", streams " + std::to_string(s); x.note(how + ", scenario " + std::to_string(k));
  Logs::install(true); errno = E[e]; differ(x, how, k, run(x, k, how)); x.state(how + std::to_string(k));
}
// settings of the stream a file is read from
void streams(Ctx& x) {
  static const std::vector<std::string> T = {header("iso-8859-1", R2) + "\nmsgid \"a b\"\nmsgstr \"  10 0x1F i\xee\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"1\"\nmsgstr[1] \"2\"\n", "\xef\xbb\xbfmsgid \"a b\"\r\nmsgstr \" x \"\r\n", "bad\n\n  \nmsgid \"a b\"\nmsgstr \"\"\n  \"x\"\n", ""};
  int t = x.choose(static_cast<int>(T.size())), fl = x.choose(6), w = x.choose(3), l = x.choose(4), tie = x.choose(2), pos = x.choose(3), ex = x.choose(2);
  std::string junk = pos == 0 ? "" : pos == 1 ? "msgid \"junk\"\nmsgstr \"j\"\n\n" : "#"; std::string body = T[static_cast<size_t>(t)], want = load(body);
  std::istringstream in(junk + body); std::ostringstream other; static const std::ios::fmtflags F[] = {std::ios::fmtflags(), std::ios::hex, std::ios::boolalpha, std::ios::unitbuf, std::ios::skipws, std::ios::showbase | std::ios::oct};
  if (fl) in.flags(F[fl]); in.width(w == 0 ? 0 : w == 1 ? 1 : 7); if (l) in.imbue(l == 1 ? std::locale(std::locale::classic(), new OddCtype) : l == 2 ? std::locale(std::locale::classic(), new Thousands) : std::locale("tr_TR.ISO-8859-9")); if (tie) in.tie(&other); in.seekg(static_cast<long>(junk.size())); if (ex) in.exceptions(std::ios::badbit); in.fill('#');
  std::string how = "text " + std::to_string(t) + " flags " + std::to_string(fl) + " width " + std::to_string(w) + " locale " + std::to_string(l) + " tie " + std::to_string(tie) + " start " + std::to_string(pos) + " exceptions " + std::to_string(ex); x.note(how);
  auto settings = [&] { std::ostringstream o; o << in.flags() << "," << in.precision() << "," << static_cast<int>(in.fill()) << "," << in.exceptions() << "," << in.getloc().name() << "," << in.tie() << "," << static_cast<void*>(in.rdbuf()); return o.str(); };
  std::string before = settings(), got; try { Dictionary d; POParser::parse("dir/i.po", in, d); Snap s = snap(d); got = show(s) + std::to_string(s.hash()); } catch (std::exception& e) { got = std::string("throws ") + e.what(); } got += logs(); x.step();
  if (got != want) x.fail(how + ": loaded " + got + "\ninstead of " + want); if (settings() != before) x.fail(how + ": the settings of the stream were changed from " + before + " to " + settings());
  x.state(how);
}
// errno as left behind by anything the caller did just before each call
const int NCALL = 18;
std::string one_call(int k, int e) {
  static const std::string PO = header("iso-8859-1", R2) + "\nmsgid \"a\"\nmsgstr \"A\xe9\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"1\"\nmsgstr[1] \"2\xe9\"\n", BAD = header("utf-8") + "\nmsgid \"a\"\nmsgstr \"A\xe9 bad\"\n\nmsgid \"b\nmsgstr \"\"\n\nmsgid \"c\"\nmsgstr \"\xc3\xa9\"\n";
  std::string o; auto f = std::make_shared<Files>(); f->dirs["p"] = {{"de.po", PO}, {"de_at.po", BAD}, {"xx.po", ""}}; MemFS* fs = new MemFS(f); DictionaryManager m{std::unique_ptr<FileSystem>(fs)}; m.add_directory("p"); Language de = Language::from_env("de"), at = Language::from_env("de_AT"); Dictionary d("ISO-8859-1"); d.set_plural_forms(forms(R2)); d.add_translation("n", "ns", Strings{"1", "2"}); d.add_translation("c", "a", "A");
  UnixFileSystem ufs; tinygettext::IConv c("UTF-8", "ISO-8859-1"), k2("UTF-8", "ISO-2022-JP"), same; std::istringstream in(PO), bad(BAD); std::string r; Strings v; std::unique_ptr<std::istream> st; PluralForms pf; std::string dir = base() + "/po", file = base() + "/po/it.po"; Logs::clear();
  try { errno = e; switch (k) {
    case 0: r = c.convert("a\xc3\xa9"); break; case 1: r = c.convert("a\xff"); break; case 2: r = k2.convert("a\xe6\x97\xa5"); break; case 3: r = same.convert("x\xff"); break; case 4: r = c.convert(""); break;
    case 5: c.set_charsets("KOI8-R", "UTF-8"); errno = e; r = c.convert("\xc1"); break; case 6: c.set_charsets("NO-SUCH", "UTF-8"); break;
    case 7: POParser::parse("a.po", in, d); break; case 8: POParser::parse("a.po", bad, d); break;
    case 9: r = d.translate("n") + d.translate_plural("n", "ns", 2) + d.translate_ctxt("c", "a"); break;
    case 10: r = m.get_dictionary(de).translate("a"); break; case 11: r = m.get_dictionary(at).translate("c"); break; case 12: r = std::to_string(m.get_languages().size()); break;
    case 13: v = ufs.open_directory(dir); break; case 14: st = ufs.open_file(file); errno = e; if (st) { r.assign(std::istreambuf_iterator<char>(*st), std::istreambuf_iterator<char>()); } break;
    case 15: r = Language::from_name("German").str() + Language::from_env("sr_RS@latin").str(); break; case 16: pf = PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1"); r = std::to_string(pf.get_nplural()); break;
    default: st = ufs.open_file(dir + "/none"); r = st && *st ? "open" : "failed"; break;
  } } catch (std::exception& x) { o += "throws " + std::string(std::string(x.what()).empty() ? "nothing " : "text "); }
  std::sort(v.begin(), v.end()); for (auto& n : v) o += n + ";"; o += text(r) + logs() + (k >= 7 && k <= 9 ? show(snap(d)) : ""); Logs::clear(); return o;
}
void errnos(Ctx& x) { int k = x.choose(NCALL), e = x.choose(134); static std::map<int, std::string> want; if (!want.count(k)) want[k] = one_call(k, 0); std::string got = one_call(k, e); x.step(); x.note("call " + std::to_string(k) + " with errno " + std::to_string(e)); if (got != want[k]) x.fail("call " + std::to_string(k) + " with errno " + std::to_string(e) + " before it gives\n" + got + "\ninstead of\n" + want[k]); x.state(got); }
std::vector<mc::Exploration> all(bool t) {
  static Scratch scratch; Logs::install(true);
  for (int k = 0; k < NSC; ++k) { plain().push_back(in_child([k] { Logs::install(true); return scenario(k); })); if (plain().back().size() < 40) throw std::runtime_error("scenario " + std::to_string(k) + " shows nothing: " + plain().back()); }
  std::vector<mc::Exploration> e; auto put = [&](const char* n, const std::string& b, std::function<void(Ctx&)> f, bool fork) { e.push_back({n, b, f}); e.back().fork_each = fork; e.back().max_seconds = 2500; e.back().exec_seconds = 60; e.back().shard_depth = 2; };
  std::string sc = std::to_string(NSC);
  put("locales", std::to_string(NSET) + " locale settings (8 locales set for C, C++ or the thread; 3 of own facets) from the first use in a process x " + sc + " scenarios", locales, true);
  std::vector<int> sets = {0, 1, 2, 1 + NNAMES, 2 + 2 * NNAMES, NSET - 3}; if (t) { sets.clear(); for (int i = 0; i < NSET; ++i) sets.push_back(i); }
  put("switches", "all pairs of (one of " + std::to_string(sets.size()) + " locale settings, one of " + sc + " scenarios), one after the other in a fresh process", [sets](Ctx& x) { switches(x, 2, sets); }, true);
  int d = t ? 4 : 3;
  put("objects", "all sequences of " + std::to_string(d) + " of 7 operations on the same objects, each under one of 7 locale settings", [d](Ctx& x) { objects(x, d); }, false);
  put("environment", "one or two of 14 environment variables set to one of 7 values, locale adopted or not, 12 scenarios", environment, true);
  put("surroundings", "6 values of errno x 3 working directories x 3 umasks x standard input open or closed x 2 rounding modes x 3 settings of the standard streams x " + sc + " scenarios", surroundings, true);
  put("errno", std::to_string(NCALL) + " calls, each directly after errno was set to one of 0..133", errnos, false);
  put("streams", "4 texts x 6 flags x 3 widths x 4 locales x tied or not x 3 start positions x exceptions or not of the stream read from", streams, false);
  return e;
}
}
mc::Property mc::property = {"C21", "model_checking", "", {"the locales are compiled by localedef from the installed sources", "a caller's stream that throws on end of file is outside (the caller asked for the exception)"}, all};
