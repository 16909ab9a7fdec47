// C19: the default file system on populations of a scratch directory.
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "mgr.hpp"
#include "tinygettext/unix_file_system.hpp"
using namespace mgr;
using mc::Ctx;

namespace {
// a scratch directory below /tmp, removed with everything in it (only plain entries one or two levels deep)
struct Scratch {
  std::string root;
  // every scratch directory lies below one made by the parent process, which removes what stopped workers leave
  static std::string& base() { static std::string b; return b; }
  Scratch() { std::string t = base() + "/XXXXXX"; if (!mkdtemp(&t[0])) throw std::runtime_error("mkdtemp"); root = t; }
  ~Scratch() { clear(root, 0); rmdir(root.c_str()); }
  static void clear(const std::string& d, int level) {
    if (level > 4 || d.compare(0, 9, "/tmp/mc19") != 0) return;
    Strings names; DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); } closedir(h);
    for (auto& n : names) { std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { clear(p, level + 1); rmdir(p.c_str()); } else unlink(p.c_str()); }
  }
};
struct Base {
  pid_t owner = getpid();
  Base() { char t[] = "/tmp/mc19.XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); Scratch::base() = t; }
  ~Base() { if (getpid() != owner) return; Scratch::clear(Scratch::base(), 0); rmdir(Scratch::base().c_str()); }
};
void write(const std::string& p, const std::string& bytes) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0) throw std::runtime_error("cannot create " + mc::quote(p)); size_t k = 0; while (k < bytes.size()) { ssize_t n = ::write(fd, bytes.data() + k, bytes.size() - k); if (n <= 0) break; k += static_cast<size_t>(n); } close(fd); }
enum Kind { FILE_, DIR_, LINK_FILE, LINK_DIR, DANGLING, FIFO_, KINDS };
void make(const std::string& p, int kind, const std::string& bytes) {
  switch (kind) {
    case FILE_: write(p, bytes); break; case DIR_: mkdir(p.c_str(), 0700); break; case LINK_FILE: if (symlink("/dev/null", p.c_str())) throw std::runtime_error("symlink"); break;
    case LINK_DIR: if (symlink(".", p.c_str())) throw std::runtime_error("symlink"); break; case DANGLING: if (symlink("nowhere", p.c_str())) throw std::runtime_error("symlink"); break; default: if (mkfifo(p.c_str(), 0600)) throw std::runtime_error("mkfifo"); break;
  }
}
std::multiset<std::string> listed(const std::vector<std::string>& v) { std::multiset<std::string> r; for (auto& n : v) if (n != "." && n != "..") r.insert(n); return r; }
std::string showset(const std::multiset<std::string>& s) { std::string o; size_t k = 0; for (auto& n : s) { o += mc::quote(n, 60) + " "; if (++k > 12) { o += "... (" + std::to_string(s.size()) + ")"; break; } } return o; }
void same_listing(Ctx& x, UnixFileSystem& fs, const std::string& dir, const std::multiset<std::string>& want, const std::string& what) {
  std::multiset<std::string> got; try { got = listed(fs.open_directory(dir)); } catch (std::exception& e) { x.fail(what + ": listing throws " + e.what()); }
  x.step(); if (got != want) x.fail(what + ": listed " + showset(got) + "\nentries " + showset(want));
}
std::string slurp(std::istream& in) { std::string r, b(777, 0); while (in.read(&b[0], static_cast<std::streamsize>(b.size())) || in.gcount()) { r.append(b, 0, static_cast<size_t>(in.gcount())); if (!in) break; } return r; }
void same_bytes(Ctx& x, UnixFileSystem& fs, const std::string& p, const std::string& want, const std::string& what) {
  std::unique_ptr<std::istream> in = fs.open_file(p); x.step();
  if (!in || !*in) x.fail(what + ": an existing file cannot be opened");
  std::string got = slurp(*in);
  if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; x.fail(what + ": " + std::to_string(got.size()) + " bytes read, " + std::to_string(want.size()) + " written, first difference at " + std::to_string(i)); }
}
void missing(Ctx& x, UnixFileSystem& fs, const std::string& p, const std::string& what) {
  std::unique_ptr<std::istream> in; try { in = fs.open_file(p); } catch (std::exception&) { return; }
  x.step(); if (!in || !*in) return; std::string s = slurp(*in); x.fail(what + ": opening a file that is not there succeeds and gives " + mc::quote(s, 60));
}
const Strings NAMES = {"de.po", "a b.po", "fr_FR.po", ".hidden", "...", "new\nline.po", "\xc3\xa9.po", "\xff\xfe.po", "'\"\\.po", "-rf", "*", std::string(255, 'n'), std::string(252, 'l') + ".po", "de.po.", "~", "%s%n", "\t", "x.PO", "\x7f\x01", "..a", " "};
void names(Ctx& x, int most) {
  Scratch s; UnixFileSystem fs; std::multiset<std::string> want; std::string what; std::map<std::string, std::string> files; int last = -1;
  for (int i = 0; i < most; ++i) {
    int c = x.choose(static_cast<int>(NAMES.size()) - last); if (!c) break; last += c; auto& n = NAMES[static_cast<size_t>(last)]; int k = x.choose(KINDS);
    make(s.root + "/" + n, k, "bytes of " + n); want.insert(n); if (k == FILE_) files[n] = "bytes of " + n; what += mc::quote(n, 40) + "(" + std::to_string(k) + ") ";
  }
  x.note(what); int how = x.choose(3); std::string dir = how == 0 ? s.root : how == 1 ? s.root + "/" : s.root + "/.";
  same_listing(x, fs, dir, want, what); same_listing(x, fs, dir, want, what + "(again)");
  for (auto& f : files) same_bytes(x, fs, s.root + "/" + f.first, f.second, what + mc::quote(f.first, 40));
  missing(x, fs, s.root + "/absent.po", what); missing(x, fs, s.root + "/absent/de.po", what);
  x.state(what);
}
// every byte in a name, alone and at every end of a short one, and names programs give to files
void characters(Ctx& x) {
  static const Strings usual = {"de.po.tmp", "de.tmp", "de.po~", "de.bak", "de.po.bak", "de.swp", ".de.po.swp", "#de.po#", ".#de.po", "de.po.orig", "de.po.rej", "de.PO", "de.pot", "de.mo", "de.gmo", "de.po.gz", "de", "lost+found", ".git", "CVS", "core", "Makefile", "a.b.c.d", ".po", "po", "..po", "...po", ".a", "..b", "...c", "-", "--", "nul", "con", "a:b", "a;b", "a|b", "$HOME", "`x`", "%2e", "?", "[a]", "{a,b}", "desktop.ini", "Thumbs.db", "00", "0"};
  int w = x.choose(256 + static_cast<int>(usual.size()) + 1); Scratch s; UnixFileSystem fs; std::multiset<std::string> want; std::map<std::string, std::string> files; Strings all;
  auto names_of = [](int b) { std::string c(1, static_cast<char>(b)); return Strings{c, "x" + c, c + "x", "de.po" + c, "de." + c, c + ".po", "d" + c + "e.po", c + c, c + c + c, "." + c, ".." + c}; };
  if (w < 256) { if (w == 0 || w == '/') { x.trivial(); return; } all = names_of(w); } else if (w < 256 + static_cast<int>(usual.size())) all = {usual[static_cast<size_t>(w - 256)]}; else { all = usual; for (int b = 1; b < 256; ++b) if (b != '/') for (auto& n : names_of(b)) all.push_back(n); }
  for (auto& n : all) { if (n == "." || n == ".." || want.count(n)) continue; write(s.root + "/" + n, n + " bytes"); want.insert(n); files[n] = n + " bytes"; }
  std::string what = w < 256 ? "names with byte " + std::to_string(w) : all.size() == 1 ? mc::quote(all[0]) : "all names"; x.note(what);
  same_listing(x, fs, s.root, want, what); for (auto& f : files) same_bytes(x, fs, s.root + "/" + f.first, f.second, what + " " + mc::quote(f.first)); x.state(static_cast<uint64_t>(w));
}
void counts(Ctx& x, int top) {
  int k = x.choose(top), d = x.choose(3), len = x.choose(3); int n = (1 << k) + d - 1; Scratch s; UnixFileSystem fs; std::multiset<std::string> want;
  for (int i = 0; i < n; ++i) { std::string nm = std::to_string(i) + (len == 0 ? "" : std::string(len == 1 ? 40 : 240, 'z')) + ".po"; write(s.root + "/" + nm, ""); want.insert(nm); }
  x.note(std::to_string(n) + " files"); same_listing(x, fs, s.root, want, std::to_string(n) + " files"); x.state(static_cast<uint64_t>(n * 4 + len));
}
void sizes(Ctx& x, const std::vector<size_t>& at) {
  size_t n = at[static_cast<size_t>(x.choose(static_cast<int>(at.size())))]; int pat = x.choose(4); std::string b(n, 0);
  for (size_t i = 0; i < n; ++i) b[i] = pat == 0 ? static_cast<char>(i * 31 + i / 256) : pat == 1 ? "\r\n"[i % 2] : pat == 2 ? '\xff' : "\x1a\0\n"[i % 3];
  Scratch s; UnixFileSystem fs; std::string p = s.root + "/f"; write(p, b); x.note(std::to_string(n) + " bytes, pattern " + std::to_string(pat));
  same_bytes(x, fs, p, b, std::to_string(n) + " bytes, pattern " + std::to_string(pat)); x.state(n * 4 + static_cast<size_t>(pat));
}
// histories: creating, changing, removing, listing, reading, always current
void history(Ctx& x, int depth) {
  Scratch s; UnixFileSystem fs; std::map<std::string, std::string> have; std::string log; const char* nm[] = {"a.po", "b"}; bool sub = false; std::unique_ptr<std::istream> held; std::string heldwant;
  bool frozen = x.choose(2); if (frozen) log = "(time stamps and sizes never change) ";
  auto stamp = [&] { if (!frozen) return; struct timespec t[2] = {{1000000000, 0}, {1000000000, 0}}; for (const char* n : {"/a.po", "/b", "/sub", ""}) utimensat(AT_FDCWD, (s.root + n).c_str(), t, 0); };
  for (int i = 0; i < depth; ++i) {
    stamp();
    int o = x.choose(10);
    if (o < 2) { log += std::string("write ") + nm[o] + "; "; std::string v = "version " + std::to_string(i) + std::string(static_cast<size_t>(100 * (frozen ? 1 : depth - i)), '.'); write(s.root + "/" + nm[o], v); have[nm[o]] = v; }
    else if (o < 4) { log += std::string("remove ") + nm[o - 2] + "; "; unlink((s.root + "/" + nm[o - 2]).c_str()); have.erase(nm[o - 2]); }
    else if (o == 4) { log += "list; "; std::multiset<std::string> w; for (auto& e : have) w.insert(e.first); if (sub) w.insert("sub"); same_listing(x, fs, s.root, w, log); }
    else if (o < 7) { log += std::string("read ") + nm[o - 5] + "; "; auto it = have.find(nm[o - 5]); if (it == have.end()) missing(x, fs, s.root + "/" + nm[o - 5], log); else same_bytes(x, fs, s.root + "/" + nm[o - 5], it->second, log); }
    else if (o == 7) { log += "make sub; "; mkdir((s.root + "/sub").c_str(), 0700); sub = true; }
    else if (o == 8) { log += "list sub; "; if (sub) same_listing(x, fs, s.root + "/sub", {}, log); else { try { auto v = listed(fs.open_directory(s.root + "/sub")); if (!v.empty()) x.fail(log + "a missing directory lists entries"); } catch (std::exception&) {} } }
    else { log += "list a file; "; try { auto v = listed(fs.open_directory(s.root + "/a.po")); if (!v.empty()) x.fail(log + "a file lists entries"); } catch (std::exception&) {} }
  }
  std::multiset<std::string> w; for (auto& e : have) w.insert(e.first); if (sub) w.insert("sub"); stamp(); same_listing(x, fs, s.root, w, log); x.note(log); x.state(log);
}
// default manager over real directories against one over the same files in memory
void managers(Ctx& x, int most) {
  static const Strings po = {"de.po", "de_AT.po", "de_at.po", "fr.po", "xx.po", "readme", "de.mo"}; Scratch s; auto mem = std::make_shared<Files>(); std::string log; Strings dirs;
  for (int d = 0; d < 2; ++d) {
    std::string dn = s.root + (d ? "/q r" : "/p"); mkdir(dn.c_str(), 0700); dirs.push_back(dn); mem->dirs[dn]; int last = -1;
    for (int i = 0; i < most; ++i) { int c = x.choose(static_cast<int>(po.size()) - last); if (!c) break; last += c; auto& n = po[static_cast<size_t>(last)]; std::string t = content(d ? "q" : "p", n); if (n == "fr.po") { std::string u; for (char ch : t) { if (ch == '\n') u += '\r'; u += ch; } t = u; } if (n == "de.po") for (int k = 0; k < 300; ++k) t += "\nmsgid \"k" + std::to_string(k) + "\"\nmsgstr \"\"\n\"v" + std::to_string(k) + "\xc3\xa9\"\n"; write(dn + "/" + n, t); mem->dirs[dn].push_back({n, t}); log += (d ? "q/" : "p/") + n + " "; }
  }
  int order = x.choose(3); x.note(log);
  std::unique_ptr<DictionaryManager> real_(new DictionaryManager()), want_(new DictionaryManager(std::unique_ptr<FileSystem>(new MemFS(mem))));
  for (auto* m : {real_.get(), want_.get()}) { m->add_directory(dirs[0], false); m->add_directory(dirs[1], order == 1); if (order == 2) m->set_charset("ISO-8859-1"); }
  // with equal match scores the listing order decides, which differs between file systems
  bool tie = log.find("de_AT.po") != std::string::npos && log.find("de_at.po") != std::string::npos;
  if (real_->get_languages() != want_->get_languages()) x.fail(log + ": the available languages differ");
  for (auto& l : {Language::from_spec("de"), Language::from_spec("de", "AT"), Language::from_spec("fr"), Language::from_spec("fr", "CA")}) {
    Snap a = snap(real_->get_dictionary(l)), b = snap(want_->get_dictionary(l)); x.step(2); x.state(a.hash());
    if (tie && l != Language::from_spec("fr")) continue;
    if (a != b) x.fail(log + ": " + l.str() + "\n" + diff(a, b));
    for (const char* id : {"who", "dir p", "k0", "k299", "absent"}) if (real_->get_dictionary(l).translate(id) != want_->get_dictionary(l).translate(id)) x.fail(log + ": translation of " + id + " differs");
  }
  // files change on disk: after the next configuration change the new contents are served
  std::string n = dirs[0] + "/de.po"; write(n, header("UTF-8") + "\nmsgid \"fresh\"\nmsgstr \"yes\"\n"); real_->set_charset("UTF-8");
  if (real_->get_dictionary(Language::from_spec("de")).translate("fresh") != "yes") x.fail(log + ": stale content is served after the file was replaced");
  unlink(n.c_str()); real_->set_charset("UTF-8");
  if (real_->get_dictionary(Language::from_spec("de")).translate("fresh") != "fresh") x.fail(log + ": stale content is served after the file was removed");
}
// missing and odd paths
void odd(Ctx& x) {
  static const Strings p = {"/missing", "/missing/de", "/f", "/f/", "/dangling", "/loop", "//d", "/d/../d", "/linkd", "/linkd/", "/l", "/d/" + std::string(300, 'x'), "/d/" + std::string(300, '/'), std::string("/d\0x", 4)};
  Scratch s; UnixFileSystem fs; mkdir((s.root + "/d").c_str(), 0700); write(s.root + "/d/in", "I"); write(s.root + "/f", "F");
  if (symlink("nowhere", (s.root + "/dangling").c_str()) || symlink("loop", (s.root + "/loop").c_str()) || symlink("d", (s.root + "/linkd").c_str()) || symlink("f", (s.root + "/l").c_str())) throw std::runtime_error("symlink");
  int i = x.choose(static_cast<int>(p.size())); const std::string path = s.root + p[static_cast<size_t>(i)]; x.note(mc::quote(p[static_cast<size_t>(i)], 60));
  bool dir = i == 6 || i == 7 || i == 8 || i == 9 || i == 12 ; std::string what = mc::quote(p[static_cast<size_t>(i)], 60); x.step();
  if (i != 13) { if (dir) same_listing(x, fs, path, {"in"}, what); else { try { auto v = listed(fs.open_directory(path)); if (!v.empty()) x.fail(what + " lists entries"); } catch (std::exception&) {} } }
  if (i == 2 || i == 10) same_bytes(x, fs, path, "F", what); else if (!dir && i != 13 && i != 3) missing(x, fs, path, what); else { try { auto in = fs.open_file(path); if (in && *in) slurp(*in); } catch (std::exception&) {} }
  // relative paths
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(s.root.c_str())) throw std::runtime_error("chdir");
  struct Back { const char* c; ~Back() { if (chdir(c)) {} } } back{cwd};
  same_listing(x, fs, "d", {"in"}, "relative directory"); same_bytes(x, fs, "d/in", "I", "relative file"); same_bytes(x, fs, "./f", "F", "relative file"); missing(x, fs, "in", "relative file"); missing(x, fs, "", "empty name");
  try { auto v = listed(fs.open_directory("")); if (!v.empty()) x.fail("a directory with an empty name lists entries"); } catch (std::exception&) {}
  if (i == 0) { UnixFileSystem g; DictionaryManager dm; dm.add_directory(s.root + "/missing"); bool threw = false; for (int k = 0; k < 2; ++k) try { Dictionary& d = dm.get_dictionary(Language::from_spec("de")); if (!snap(d).plain.empty()) x.fail("a missing directory contributes entries"); } catch (std::exception&) { threw = true; } (void)threw; dm.remove_directory(s.root + "/missing"); dm.add_directory(s.root + "/d"); write(s.root + "/d/de.po", "msgid \"a\"\nmsgstr \"A\"\n"); if (dm.get_dictionary(Language::from_spec("de")).translate("a") != "A") x.fail("the manager is unusable after a missing directory"); }
  x.state(static_cast<uint64_t>(i));
}
std::vector<mc::Exploration> all(bool t) {
  Logs::silence(); Scratch::base(); static Base base;
  std::vector<mc::Exploration> e; int m = t ? 3 : 2;
  e.push_back({"names", "all sets of at most " + std::to_string(m) + " of 21 names as file, directory, link to file or directory, dangling link or fifo, 3 spellings of the directory", [m](Ctx& x) { names(x, m); }}); e.back().max_seconds = 2500;
  e.push_back({"characters", "every byte except zero and slash at 11 places of a name, 47 usual names, and all of them together", characters}); e.back().shard_depth = 1;
  int top = t ? 14 : 11;
  e.push_back({"counts", "2^k-1..2^k+1 entries, k < " + std::to_string(top) + ", short, longer and very long names", [top](Ctx& x) { counts(x, top); }}); e.back().shard_depth = 1;
  std::vector<size_t> at; for (size_t i = 0; i < (t ? 2000u : 300u); ++i) at.push_back(i); for (size_t b : {512u, 1024u, 4096u, 8191u, 8192u, 16384u, 32768u, 65536u, 131072u, 1048576u}) for (size_t k = 0; k < 5; ++k) at.push_back(b + k - 2);
  e.push_back({"sizes", std::to_string(at.size()) + " file sizes (all small ones, two to either side of buffer sizes) x 4 byte patterns", [at](Ctx& x) { sizes(x, at); }}); e.back().shard_depth = 1;
  int d = t ? 5 : 4;
  e.push_back({"histories", "all sequences of " + std::to_string(d) + " of 10 operations (write, remove, list, read, make a directory), with moving and with constant time stamps", [d](Ctx& x) { history(x, d); }}); e.back().max_seconds = 2500;
  e.push_back({"managers", "default manager against the same files in memory: all sets of at most " + std::to_string(m) + " of 7 files in each of 2 directories, 3 configurations", [m](Ctx& x) { managers(x, m); }}); e.back().max_seconds = 2500;
  e.push_back({"paths", "14 odd paths: missing, files as directories, links, loops, long, embedded zero; relative paths", odd}); e.back().shard_depth = 1;
  return e;
}
}
mc::Property mc::property = {"C19", "model_checking", "", {"the scratch directory's file system (Linux, root user: permissions are not exercised)", "listing . and .. would be tolerated"}, all};
