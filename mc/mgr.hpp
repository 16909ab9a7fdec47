// Shared by the manager drivers (C12-C15): what a file name denotes, generated contents, leak measurement.
#pragma once
#include <cctype>
#include <deque>
#include <functional>
#include <set>
#include "tg.hpp"
#include "tinygettext/dictionary_manager.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace mgr {
using namespace tg;

inline bool is_po(const std::string& n) { return n.size() >= 3 && n.compare(n.size() - 3, 3, ".po") == 0; }
// the language a .po file name denotes: locale string, letter case of the country not significant
inline Language denotes(const std::string& name) {
  std::string s = name.substr(0, name.size() - 3);
  size_t u = s.find('_');
  if (u != std::string::npos) for (size_t i = u + 1; i < s.size() && isalpha(static_cast<unsigned char>(s[i])); ++i) s[i] = static_cast<char>(toupper(static_cast<unsigned char>(s[i])));
  return Language::from_env(s);
}
// contents that tell which file of which directory they come from
inline std::string mark(const std::string& dir, const std::string& name) { return dir + "/" + name; }
inline std::string content(const std::string& dir, const std::string& name) {
  std::string m = mark(dir, name);
  return header("UTF-8", "nplurals=2; plural=(n != 1);") + "\nmsgid \"who\"\nmsgstr " + q(m) + "\n\nmsgid " + q("dir " + dir) + "\nmsgstr " + q(m) + "\n\nmsgctxt \"c\"\nmsgid \"who\"\nmsgstr " + q("c" + m) + "\n\nmsgid " + q("file " + m) + "\nmsgstr \"yes\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] " + q("1" + m) + "\nmsgstr[1] " + q("2" + m) + "\n";
}
inline void put(Files& f, const std::string& dir, const std::string& name) { f.dirs[dir].push_back({name, content(dir, name)}); }
// names of the files a dictionary was loaded from, by directory
inline std::map<std::string, std::set<std::string>> sources(const Snap& s) {
  std::map<std::string, std::set<std::string>> r;
  for (auto& e : s.plain) if (e.first.compare(0, 5, "file ") == 0) { std::string p = e.first.substr(5); size_t k = p.find('/'); r[p.substr(0, k)].insert(p.substr(k + 1)); }
  return r;
}
typedef std::deque<std::string> Path;
inline void path_add(Path& p, const std::string& d, bool first) { for (auto& e : p) if (e == d) return; if (first) p.push_front(d); else p.push_back(d); }
inline void path_remove(Path& p, const std::string& d) { for (auto i = p.begin(); i != p.end(); ++i) if (*i == d) { p.erase(i); return; } }
inline std::string str(const Path& p) { std::string o; for (auto& d : p) o += d + " "; return o; }

// files of one directory that may be chosen for a request
inline std::set<std::string> best(const std::vector<std::pair<std::string, std::string>>& files, const Language& want) {
  std::set<std::string> r; int top = 0;
  for (auto& f : files) { if (!is_po(f.first)) continue; Language l = denotes(f.first); if (!l) continue; int s = Language::match(want, l); if (s > top) { top = s; r.clear(); } if (s == top && s > 0) r.insert(f.first); }
  return r;
}
// checks a dictionary obtained for `want` against the reference selection; empty string when right
inline std::string judge(const Snap& s, const Files& f, const Path& path, const Language& want) {
  auto src = sources(s); Path winners; size_t nfiles = 0; std::string w = "request " + want.str() + ", search path " + str(path) + "\n";
  for (auto& d : path) {
    auto it = f.dirs.find(d); std::set<std::string> ok; if (it != f.dirs.end()) ok = best(it->second, want);
    auto& got = src[d]; std::string list; for (auto& g : got) list += g + " "; std::string okl; for (auto& g : ok) okl += g + " ";
    if (ok.empty()) { if (!got.empty()) return w + "directory " + d + " must contribute nothing, got " + list; continue; }
    if (got.size() != 1) return w + "directory " + d + " must contribute one of " + okl + ", got " + (list.empty() ? "nothing" : list);
    if (!ok.count(*got.begin())) return w + "directory " + d + " must contribute one of " + okl + ", got " + list;
    winners.push_back(mark(d, *got.begin())); ++nfiles;
  }
  for (auto& e : src) { bool in = false; for (auto& d : path) in |= d == e.first; if (!in && !e.second.empty()) return w + "directory " + e.first + " is not in the search path but contributes"; }
  ref::Dict m;
  for (auto i = winners.rbegin(); i != winners.rend(); ++i) { m.add("who", *i); m.add("dir " + i->substr(0, i->find('/')), *i); m.add_c("c", "who", "c" + *i); m.add("file " + *i, "yes"); m.add("n", Strings{"1" + *i, "2" + *i}); m.rule = rule(1); }
  if (s != snap_of(m)) return w + diff(s, snap_of(m));
  return "";
}

// Runs a closed function and reports whether it leaves memory allocated behind each time.
inline size_t leaked(const std::function<void()>& fn) {
  fn();
  size_t least = SIZE_MAX;
  for (int i = 0; i < 3; ++i) { size_t a = __sanitizer_get_current_allocated_bytes(); fn(); size_t b = __sanitizer_get_current_allocated_bytes(); size_t d = b > a ? b - a : 0; if (d < least) least = d; if (!least) break; }
  return least;
}
} // namespace mgr
