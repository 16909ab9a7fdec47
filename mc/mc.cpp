#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:quarantine_size_mb=8:malloc_context_size=12:"
         "detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=1:print_summary=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

namespace mc {

using Clock = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

uint64_t hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}

std::string quote(const std::string& s, size_t max) {
  std::string o = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (i >= max) { o += "\"...(" + std::to_string(s.size()) + " bytes)"; return o; }
    if (c == '\n') o += "\\n"; else if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

static const size_t MAXCH = 30000, MAXCLAIM = 1 << 22, NSAMPLE = 6, SAMPLEN = 1500;

struct Slot {
  std::atomic<uint64_t> execs, transitions, trivial, prunes, known;
  std::atomic<uint32_t> nch;
  std::atomic<int> in_body;
  int16_t ch[MAXCH];
  int failed;
  char key[256];
  char msg[6000];
  int done, truncated;
  uint32_t nsample;
  char sample[NSAMPLE][SAMPLEN];
  uint32_t maxdepth;
};

struct Shared {
  std::atomic<uint64_t> stop;
  Slot slots[64];
  std::atomic<int8_t> owner[MAXCLAIM];
};
static Shared* sh;
static std::set<std::string> known_keys;      // "key" strings of this property's known findings
static std::map<std::string, std::string> known_text;
static std::set<std::string> known_hit;

struct StateSet { std::unordered_set<uint64_t> s; static const size_t cap = 1500000; bool full = false; };

void Ctx::state(uint64_t h) {
  auto* st = static_cast<StateSet*>(states);
  if (!st) return;
  if (st->s.size() < StateSet::cap) st->s.insert(h); else st->full = true;
}
void Ctx::state(const std::string& s) { state(hash(s)); }

int Ctx::choose(int n) { return pick(n, 0); }
int Ctx::deviate(int n) { return pick(n, 1); }

int Ctx::pick(int n, int cost) {
  if (n <= 0) fail("driver error: choose(" + std::to_string(n) + ")");
  int eff = n;
  if (cost && bound >= 0 && used >= bound) eff = 1;
  int c;
  if (pos < pts.size()) {
    Point& p = pts[pos];
    if (pos < fixed || replaying) {
      if (p.n >= 0 && p.n != eff && !(replaying)) fail("driver error: nondeterministic replay of a prefix (n " + std::to_string(p.n) + " vs " + std::to_string(eff) + ")");
      p.n = eff; p.cost = cost;
      if (p.c >= eff) fail("driver error: replayed choice out of range");
    }
    c = p.c;
  } else {
    if (replaying) { /* past the recorded vector: default */ }
    pts.push_back(Point{eff, 0, cost});
    c = 0;
  }
  if (cost && c) used += cost;
  Slot* s = static_cast<Slot*>(slot);
  if (s && pos < MAXCH) { s->ch[pos] = static_cast<int16_t>(c); s->nch.store(static_cast<uint32_t>(pos + 1), std::memory_order_relaxed); }
  ++pos;
  if (shard_depth && pos == shard_depth && first_changed < shard_depth && claim) {
    if (!claim()) throw Prune();
  }
  return c;
}

void Ctx::fail(const std::string& msg, const std::string& key) { throw Failure{key, msg}; }

static bool advance(Ctx& x) {   // next vector in depth-first order; false when exhausted
  x.pts.resize(std::min(x.pts.size(), x.pos));
  while (!x.pts.empty()) {
    Ctx::Point& p = x.pts.back();
    if (p.c + 1 < p.n) { ++p.c; x.first_changed = x.pts.size() - 1; x.fixed = x.pts.size(); return true; }
    x.pts.pop_back();
  }
  return false;
}

static void reset(Ctx& x) { x.pos = 0; x.used = 0; x.transitions = 0; x.is_trivial = false; x.notes.clear(); }

static void copystr(char* d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static void run_body(const Exploration& e, Ctx& x, Slot* s) {
  // may throw Failure or Prune
  (void)s;
  try { e.body(x); }
  catch (Failure&) { throw; }
  catch (Prune&) { throw; }
  catch (std::exception& ex) { throw Failure{"", std::string("unexpected exception reached the caller: ") + ex.what()}; }
  catch (...) { throw Failure{"", "unexpected exception of unknown type reached the caller"}; }
}

// ---- a process per execution: the child hands its choices and counts back through shared memory ----
struct Forked { uint32_t npts; uint64_t pos; int used; uint64_t transitions, ordinal; int trivial, pruned; uint32_t nstates; uint64_t states[256]; char notes[SAMPLEN]; Ctx::Point pts[1 << 17]; };
static Forked* forked;
static uint64_t* forked_ordinal;
static std::vector<uint64_t>* forked_states;

void finish(Ctx& x, bool pruned) {
  if (!forked) _exit(0);   // a replay
  Forked& f = *forked;
  if (x.pts.size() > sizeof f.pts / sizeof f.pts[0]) finish_failed(x, "driver error: too many choices");
  f.npts = static_cast<uint32_t>(x.pts.size()); f.pos = x.pos; f.used = x.used; f.transitions = x.transitions; f.trivial = x.is_trivial; f.pruned = pruned; f.ordinal = *forked_ordinal;
  for (size_t i = 0; i < x.pts.size(); ++i) f.pts[i] = x.pts[i];
  copystr(f.notes, SAMPLEN, x.notes); f.nstates = 0;
  for (uint64_t h : *forked_states) if (f.nstates < 256) f.states[f.nstates++] = h;
  _exit(0);
}
void finish_failed(Ctx& x, const std::string& msg, const std::string& key) {
  Slot* s = static_cast<Slot*>(x.slot);
  copystr(s->key, sizeof s->key, key); copystr(s->msg, sizeof s->msg, msg); s->failed = 1;
  if (!forked) copystr(s->sample[0], SAMPLEN, x.notes);
  _exit(10);
}
// 0 done, 1 pruned; throws Failure
static int fork_one(const Exploration& e, Ctx& x, Slot* s, uint64_t& ordinal, StateSet& st) {
  s->failed = 0; forked->npts = UINT32_MAX; forked_ordinal = &ordinal;
  pid_t p = fork();
  if (p < 0) throw Failure{"", "driver error: fork"};
  if (p == 0) {
    StateSet own; x.states = &own; static std::vector<uint64_t> v; forked_states = &v;
    alarm(static_cast<unsigned>(e.exec_seconds));
    bool pruned = false;
    try { run_body(e, x, s); } catch (Prune&) { pruned = true; } catch (Failure& f) { finish_failed(x, f.msg, f.key); }
    for (uint64_t h : own.s) v.push_back(h);
    finish(x, pruned);
  }
  int w; while (waitpid(p, &w, 0) < 0) if (errno != EINTR) throw Failure{"", "driver error: waitpid"};
  if (WIFEXITED(w) && WEXITSTATUS(w) == 0 && forked->npts != UINT32_MAX) {
    Forked& f = *forked;
    x.pts.assign(f.pts, f.pts + f.npts); x.pos = f.pos; x.used = f.used; x.transitions = f.transitions; x.is_trivial = f.trivial; x.notes = f.notes; ordinal = f.ordinal;
    for (uint32_t i = 0; i < f.nstates; ++i) if (st.s.size() < StateSet::cap) st.s.insert(f.states[i]);
    return f.pruned;
  }
  if (WIFEXITED(w) && WEXITSTATUS(w) == 10 && s->failed) throw Failure{s->key, s->msg};
  if (WIFSIGNALED(w) && WTERMSIG(w) == SIGALRM) throw Failure{"hang", "an execution does not end"};
  throw Failure{"crash", "an execution ends with wait status " + std::to_string(w)};
}

// frozen_owner >= 0: re-run exactly what worker w ran (claims fixed), used for history replays.
static int worker(const Exploration& e, int w, int nworkers, double deadline, const std::string& statefile,
                  bool frozen, const std::vector<int>* stop_at) {
  (void)nworkers;
  Slot* s = &sh->slots[w];
  StateSet st;
  if (e.fork_each) { forked = static_cast<Forked*>(mmap(nullptr, sizeof(Forked), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); if (forked == MAP_FAILED) return 3; }
  Ctx x;
  x.slot = s; x.states = &st; x.bound = e.deviation_bound;
  uint64_t ordinal = 0;
  bool owned_short = true;
  x.shard_depth = e.serial ? 0 : e.shard_depth;
  x.claim = [&]() -> bool {
    uint64_t o = ordinal++;
    owned_short = false;
    if (o >= MAXCLAIM) return static_cast<int>(o % static_cast<uint64_t>(nworkers)) == w;
    int8_t cur = sh->owner[o].load();
    if (frozen) return cur == w + 1;
    if (cur != 0) return false;
    int8_t exp = 0;
    return sh->owner[o].compare_exchange_strong(exp, static_cast<int8_t>(w + 1));
  };
  uint64_t next_sample = 0, n = 0;
  for (;;) {
    reset(x);
    owned_short = true;
    if (n == next_sample && s->nsample < NSAMPLE) x.tracing = true;
    s->nch = 0;
    s->in_body = 1;
    bool pruned = false;
    try { if (e.fork_each) pruned = fork_one(e, x, s, ordinal, st); else run_body(e, x, s); }
    catch (Prune&) { pruned = true; }
    catch (Failure& f) {
      if (!f.key.empty() && known_keys.count(f.key)) {
        s->known++;
        copystr(s->key, sizeof s->key, f.key);
      } else {
        copystr(s->key, sizeof s->key, f.key);
        copystr(s->msg, sizeof s->msg, f.msg);
        s->failed = 1;
        return 10;
      }
    }
    s->in_body = 0;
    if (pruned) { s->prunes++; }
    else {
      // executions with fewer choices than the shard depth run in every worker; count them once
      bool shortrun = x.shard_depth && x.pos < x.shard_depth;
      if (!shortrun || w == 0) {
        s->execs++; s->transitions += x.transitions; if (x.is_trivial) s->trivial++;
        if (x.tracing && s->nsample < NSAMPLE) { copystr(s->sample[s->nsample++], SAMPLEN, x.notes); next_sample = next_sample ? next_sample * 7 : 11; }
      }
      if (x.pos > s->maxdepth) s->maxdepth = static_cast<uint32_t>(x.pos);
      ++n;
    }
    x.tracing = false;
    if (stop_at) {
      std::vector<int> v; for (size_t i = 0; i < x.pos; ++i) v.push_back(x.pts[i].c);
      if (!pruned && v == *stop_at) return 0;
    }
    if (!advance(x)) break;
    if ((n & 15) == 0 && now() > deadline) { s->truncated = 1; break; }
    if (sh->stop) break;
  }
  s->done = 1;
  if (!statefile.empty()) {
    FILE* f = fopen(statefile.c_str(), "wb");
    if (f) { for (uint64_t h : st.s) fwrite(&h, 8, 1, f); fclose(f); }
    if (st.full) s->truncated |= 2;
  }
  return 0;
}

static long rss_mb(pid_t p) {
  char path[64]; snprintf(path, sizeof path, "/proc/%d/statm", p);
  FILE* f = fopen(path, "r"); if (!f) return 0;
  long a = 0, b = 0; int k = fscanf(f, "%ld %ld", &a, &b); fclose(f);
  return k == 2 ? b * 4096 / (1024 * 1024) : 0;
}

static const long RSS_LIMIT_MB = 1500;
static const double HANG_S = 15, REPLAY_S = 25;

struct End { bool failed = false; std::string what, key, err; };

static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str();
}

static std::string tmpdir;

// Runs `fn` in a child; watches crash, hang, memory. stderr is captured.
static End guarded(const std::function<int()>& fn, Slot* s, double limit) {
  End r;
  std::string errf = tmpdir + "/replay.err";
  s->failed = 0; s->key[0] = 0; s->msg[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    _exit(fn());
  }
  double t0 = now();
  for (;;) {
    int st; pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
      r.failed = true;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { r.what = s->msg; r.key = s->key; }
      else {
        r.err = slurp(errf);
        r.what = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) : "process ended with status " + std::to_string(WEXITSTATUS(st));
        size_t k = r.err.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = r.err.find("runtime error"); if (k == std::string::npos) k = r.err.find("Assertion");
        if (k != std::string::npos) { size_t b = r.err.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; size_t z = r.err.find('\n', k); r.what += ": " + r.err.substr(b, z - b); }
        r.key = "crash";
      }
      return r;
    }
    if (rss_mb(p) > RSS_LIMIT_MB) { kill(p, SIGKILL); waitpid(p, &st, 0); r.failed = true; r.what = "memory grows without bound (over " + std::to_string(RSS_LIMIT_MB) + " MB for one small case)"; r.key = "memory"; return r; }
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); r.failed = true; r.what = "does not terminate within " + std::to_string(static_cast<int>(limit)) + " s"; r.key = "hang"; return r; }
    usleep(2000);
  }
}

static int run_single(const Exploration& e, const std::vector<int>& ch, Slot* s, std::string* notes_to_stderr) {
  if (e.fork_each) alarm(static_cast<unsigned>(e.exec_seconds));
  Ctx x; x.slot = s; x.bound = e.deviation_bound; x.replaying = true; x.tracing = true;
  for (int c : ch) x.pts.push_back(Ctx::Point{-1, c, 0});
  reset(x);
  int rc = 0;
  try { run_body(e, x, s); }
  catch (Failure& f) { copystr(s->key, sizeof s->key, f.key); copystr(s->msg, sizeof s->msg, f.msg); s->failed = 1; rc = 10; }
  catch (Prune&) {}
  if (notes_to_stderr) fprintf(stderr, "%s", x.notes.c_str());
  copystr(s->sample[0], SAMPLEN, x.notes);
  return rc;
}

static std::string json(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

struct Stat { std::string name, bounds; uint64_t execs = 0, trans = 0, states = 0, trivial = 0, known = 0; uint32_t depth = 0; bool truncated = false; double secs = 0; int devbound = -1; std::vector<std::string> samples; };

static std::string vec(const std::vector<int>& v) { std::string s; for (int c : v) { if (!s.empty()) s += ","; s += std::to_string(c); } return s; }

static int main_(int argc, char** argv) {
  bool thorough = false; std::string evidence, replaydir = ".", known, replay, only; long seed = 1; int W = 8; bool list = false;
  if (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough")) thorough = true;
  if (getenv("VERIF_SEED")) seed = atol(getenv("VERIF_SEED"));
  if (getenv("MC_WORKERS")) W = atoi(getenv("MC_WORKERS"));
  else { long k = sysconf(_SC_NPROCESSORS_ONLN); W = static_cast<int>(std::max(2L, std::min(16L, k))); }
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--thorough") thorough = true; else if (a == "--quick") thorough = false;
    else if (a == "--evidence") evidence = next(); else if (a == "--replay-dir") replaydir = next();
    else if (a == "--known") known = next(); else if (a == "--replay") replay = next();
    else if (a == "--only") only = next(); else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  const Property& P = property;
  double t0 = now();
  // known findings: lines "known: property=<id> key=<key> <text>"
  if (!known.empty()) {
    std::ifstream f(known); std::string l;
    std::string pre = std::string("known: property=") + P.id + " key=";
    while (std::getline(f, l)) if (l.compare(0, pre.size(), pre) == 0) {
      std::string r = l.substr(pre.size()); size_t sp = r.find(' '); std::string k = r.substr(0, sp);
      known_keys.insert(k); known_text[k] = sp == std::string::npos ? "" : r.substr(sp + 1);
    }
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  char tmpl[] = "/tmp/mc.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } tmpdir = tmpl;
  struct Cleanup { pid_t owner = getpid(); ~Cleanup() { if (getpid() != owner) return; for (int i = 0; i < 64; ++i) unlink((tmpdir + "/s" + std::to_string(i)).c_str()); for (int i = 0; i < 64; ++i) unlink((tmpdir + "/w" + std::to_string(i) + ".err").c_str()); unlink((tmpdir + "/replay.err").c_str()); rmdir(tmpdir.c_str()); } } cleanup;

  auto exps = P.explorations(thorough);
  if (list) { for (auto& e : exps) printf("%s: %s\n", e.name.c_str(), e.bounds.c_str()); return 0; }

  if (!replay.empty()) {
    std::ifstream f(replay); std::string l, name; std::vector<int> ch; std::vector<int> owned; bool hist = false; int w = 0;
    while (std::getline(f, l)) {
      if (l.rfind("tier: ", 0) == 0) { thorough = l.substr(6) == "thorough"; exps = P.explorations(thorough); }
      if (l.rfind("exploration: ", 0) == 0) name = l.substr(13);
      if (l.rfind("choices: ", 0) == 0) { std::stringstream ss(l.substr(9)); std::string t; while (std::getline(ss, t, ',')) ch.push_back(atoi(t.c_str())); }
      if (l.rfind("history-worker: ", 0) == 0) { hist = true; w = atoi(l.c_str() + 16); }
      if (l.rfind("history-owned: ", 0) == 0) { std::stringstream ss(l.substr(15)); std::string t; while (std::getline(ss, t, ',')) owned.push_back(atoi(t.c_str())); }
    }
    for (auto& e : exps) if (e.name == name) {
      End r;
      if (hist) {
        for (int o : owned) sh->owner[o] = static_cast<int8_t>(w + 1);
        r = guarded([&] { return worker(e, w, W, now() + 3600, "", true, &ch); }, &sh->slots[w], 900);
      } else r = guarded([&] { return run_single(e, ch, &sh->slots[0], nullptr); }, &sh->slots[0], 120);
      printf("%s\n", sh->slots[0].sample[0]);
      if (!r.err.empty()) printf("%s\n", r.err.substr(0, 6000).c_str());
      if (r.failed) { printf("replay fails: %s\n", r.what.c_str()); return 1; }
      printf("replay passes\n"); return 0;
    }
    printf("no such exploration: %s\n", name.c_str()); return 2;
  }

  std::vector<Stat> stats;
  int rc = 0; uint64_t violations = 0;
  for (auto& e : exps) {
    if (!only.empty() && e.name != only) continue;
    double te = now();
    memset(static_cast<void*>(sh), 0, sizeof(Shared));
    int nw = e.serial ? 1 : W;
    std::vector<pid_t> pids(static_cast<size_t>(nw), 0);
    double deadline = now() + e.max_seconds;
    fflush(stdout);
    for (int w = 0; w < nw; ++w) {
      pid_t p = fork();
      if (p < 0) { perror("fork"); return 2; }
      if (p == 0) {
        std::string errf = tmpdir + "/w" + std::to_string(w) + ".err";
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        _exit(worker(e, w, nw, deadline, tmpdir + "/s" + std::to_string(w), false, nullptr));
      }
      pids[static_cast<size_t>(w)] = p;
    }
    int left = nw, bad = -1; std::string badwhy; bool slow_skipped = false;
    std::vector<uint64_t> lastn(static_cast<size_t>(nw), 0); std::vector<double> lastt(static_cast<size_t>(nw), now());
    std::vector<bool> ended(static_cast<size_t>(nw), false);
    while (left > 0 && bad < 0) {
      for (int w = 0; w < nw && bad < 0; ++w) {
        size_t i = static_cast<size_t>(w);
        if (ended[i]) continue;
        int st; pid_t q = waitpid(pids[i], &st, WNOHANG);
        if (q == pids[i]) {
          ended[i] = true; --left;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad = w; badwhy = "end"; }
          continue;
        }
        Slot& s = sh->slots[w];
        uint64_t n = s.execs + s.prunes + s.known;
        if (n != lastn[i]) { lastn[i] = n; lastt[i] = now(); }
        bool hang = now() - lastt[i] > HANG_S && !e.fork_each, big = rss_mb(pids[i]) > RSS_LIMIT_MB;
        if (hang || big) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); ended[i] = true; --left; bad = w; badwhy = hang ? "hang" : "memory"; }
      }
      usleep(5000);
    }
    if (bad >= 0) {
      for (int w = 0; w < nw; ++w) if (!ended[static_cast<size_t>(w)]) { kill(pids[static_cast<size_t>(w)], SIGKILL); int st; waitpid(pids[static_cast<size_t>(w)], &st, 0); }
      Slot& s = sh->slots[bad];
      std::vector<int> ch; for (uint32_t i = 0; i < s.nch && i < MAXCH; ++i) ch.push_back(s.ch[i]);
      std::string first = s.failed ? s.msg : badwhy;
      std::string werr = slurp(tmpdir + "/w" + std::to_string(bad) + ".err");
      // replay in fresh processes before reporting
      End a = guarded([&] { return run_single(e, ch, &sh->slots[0], nullptr); }, &sh->slots[0], REPLAY_S);
      std::string notes = sh->slots[0].sample[0];
      bool hist = false; End r = a;
      if (a.failed && a.key == "hang") {
      } else if (a.failed) {
        End b = guarded([&] { return run_single(e, ch, &sh->slots[0], nullptr); }, &sh->slots[0], REPLAY_S);
        if (!b.failed) { printf("ERROR: replay of %s choices %s is not deterministic\n", e.name.c_str(), vec(ch).c_str()); return 2; }
      } else {
        // depends on what ran before it in the same process: replay this worker's whole history
        r = guarded([&] { return worker(e, bad, nw, now() + 3600, "", true, &ch); }, &sh->slots[bad], std::max(120.0, 3 * (now() - te)));
        hist = r.failed;
        if (hist && r.key != "crash" && r.key != "hang" && r.key != "memory") { r.what += " (only after earlier cases in the same process)"; }
      }
      if (!r.failed) {
        if (badwhy != "end") { slow_skipped = true; printf("note: %s: a case was slow (%s) but finished alone; the exploration is incomplete\n", e.name.c_str(), badwhy.c_str()); }
        else { printf("ERROR: failure of %s choices %s did not reproduce: %s\n%s\n", e.name.c_str(), vec(ch).c_str(), first.c_str(), werr.substr(0, 3000).c_str()); return 2; }
      } else {
        ++violations; rc = 1;
        mkdir(replaydir.c_str(), 0777);
        std::string file = replaydir + "/" + P.id + "-" + e.name + ".txt";
        std::ofstream o(file, std::ios::binary);
        o << "property: " << P.id << "\nexploration: " << e.name << "\ntier: " << (thorough ? "thorough" : "quick") << "\nchoices: " << vec(ch) << "\n";
        if (hist) { o << "history-worker: " << bad << "\nhistory-owned: "; bool c = false; for (size_t k = 0; k < MAXCLAIM; ++k) if (sh->owner[k] == bad + 1) { o << (c ? "," : "") << k; c = true; } o << "\n"; }
        o << "what: " << r.what << "\ncase:\n" << notes << "\n";
        if (!r.err.empty()) o << "stderr:\n" << r.err.substr(0, 20000) << "\n";
        o.close();
        printf("%s: %s\n%s\n", e.name.c_str(), r.what.c_str(), notes.c_str());
        printf("VIOLATION property=%s replay=%s\n", P.id, file.c_str());
        fflush(stdout);
      }
    }
    Stat t; t.name = e.name; t.bounds = e.bounds; t.devbound = e.deviation_bound; t.truncated = slow_skipped || bad >= 0;
    std::unordered_set<uint64_t> all;
    for (int w = 0; w < nw; ++w) {
      Slot& s = sh->slots[w];
      t.execs += s.execs; t.trans += s.transitions; t.trivial += s.trivial; t.known += s.known; t.depth = std::max(t.depth, s.maxdepth);
      if (s.truncated & 1) t.truncated = true;
      if (s.known) known_hit.insert(s.key);
      for (uint32_t k = 0; k < s.nsample && t.samples.size() < 3; ++k) if (k == s.nsample - 1 || k == 0) t.samples.push_back(s.sample[k]);
      std::string f = tmpdir + "/s" + std::to_string(w); std::ifstream in(f, std::ios::binary); uint64_t h;
      while (in.read(reinterpret_cast<char*>(&h), 8)) all.insert(h);
    }
    t.states = all.size(); t.secs = now() - te;
    printf("%-28s executions %llu transitions %llu states %llu depth %u %.1fs%s\n", e.name.c_str(), static_cast<unsigned long long>(t.execs), static_cast<unsigned long long>(t.trans), static_cast<unsigned long long>(t.states), t.depth, t.secs, t.truncated ? " INCOMPLETE" : "");
    fflush(stdout);
    stats.push_back(t);
    if (rc) break;
  }
  for (auto& k : known_hit) printf("KNOWN-FINDING: property=%s %s\n", P.id, known_text[k].c_str());
  // evidence
  uint64_t ex = 0, tr = 0, stt = 0, triv = 0; bool full = true; std::vector<std::string> samples;
  for (auto& t : stats) { ex += t.execs; tr += t.trans; stt += t.states; triv += t.trivial; full &= !t.truncated; for (auto& s : t.samples) if (samples.size() < 12) samples.push_back(t.name + ": " + s); }
  if (!evidence.empty()) {
    std::ofstream o(evidence, std::ios::binary);
    o << "{\n \"property\": " << json(P.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": " << json(P.level) << ",\n \"coverage\": {\n";
    if (!strcmp(P.level, "model_checking"))
      o << "  \"states\": " << stt << ",\n  \"transitions\": " << tr << ",\n  \"traces_validated_against_impl\": " << ex << ",\n";
    else
      o << "  \"evaluations\": " << ex << ",\n  \"distinct_nontrivial\": " << stt << ",\n  \"rule\": " << json(P.rule) << ",\n";
    o << "  \"exhaustive\": " << (full ? "true" : "false") << ",\n  \"executions_where_nothing_applied\": " << triv << ",\n  \"explorations\": [";
    bool c = false;
    for (auto& t : stats) {
      o << (c ? ",\n   " : "\n   ") << "{\"name\": " << json(t.name) << ", \"bounds\": " << json(t.bounds) << ", \"executions\": " << t.execs << ", \"operations\": " << t.trans << ", \"distinct_observed_states\": " << t.states << ", \"longest_choice_vector\": " << t.depth << ", \"deviation_bound\": " << t.devbound << ", \"completed\": " << (t.truncated ? "false" : "true") << ", \"known_finding_hits\": " << t.known << ", \"seconds\": " << t.secs << "}"; c = true;
    }
    o << "\n  ],\n  \"samples\": [";
    c = false; for (auto& s : samples) { o << (c ? ",\n   " : "\n   ") << json(s); c = true; }
    o << "\n  ]\n },\n \"assumptions\": [";
    c = false; for (auto& s : P.assumptions) { o << (c ? ", " : "") << json(s); c = true; }
    o << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations << "\n}\n";
  }
  return rc;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
  if (mc::child) { int r = mc::child(); if (r >= 0) return r; }
  return mc::main_(argc, argv);
}
#endif
