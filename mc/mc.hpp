// Stateless explorer: enumerates the choice tree of a closed driver, exhaustively within bounds.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Failure { std::string key, msg; };

class Ctx {
public:
  // A free choice among n alternatives (0..n-1), all of which are explored.
  int choose(int n);
  // A choice whose alternatives other than 0 count against the exploration's deviation bound.
  int deviate(int n);
  // Counts operations executed on the implementation (transitions).
  void step(uint64_t n = 1) { transitions += n; }
  // Records an observed state; distinct ones are counted.
  void state(uint64_t h);
  void state(const std::string& s);
  // A violation. key identifies the failing case class for the known-findings file.
  [[noreturn]] void fail(const std::string& msg, const std::string& key = "");
  void check(bool ok, const char* what) { if (!ok) fail(what); }
  // Description of the case; only evaluated when the run is traced (samples, replays).
  bool tracing = false;
  std::string notes;
  void note(const std::string& s) { if (tracing) { notes += s; notes += "\n"; } }
  int deviations_left() const { return bound < 0 ? 1 << 30 : bound - used; }
  // Marks the execution as one in which the property was not applicable (counted separately).
  void trivial() { is_trivial = true; }

  // -- explorer side --
  struct Point { int n, c, cost; };
  std::vector<Point> pts;
  size_t pos = 0;            // next point to decide
  size_t fixed = 0;          // points [0,fixed) are replayed
  int bound = -1, used = 0;
  uint64_t transitions = 0;
  bool is_trivial = false;
  bool replaying = false;
  size_t shard_depth = 0; size_t first_changed = 0;
  std::function<bool()> claim;   // called on reaching shard_depth with a new prefix
  void* slot = nullptr;
  void* states = nullptr;
private:
  int pick(int n, int cost);
};

struct Prune {};

struct Exploration {
  std::string name;
  std::string bounds;                // human readable bounds of this tier
  std::function<void(Ctx&)> body;
  int deviation_bound = -1;          // -1: no bound on deviations
  size_t shard_depth = 2;
  double max_seconds = 600;          // cap, reported when hit
  bool serial = false;               // run in one worker only
  bool fork_each = false;            // a fresh process per execution
  double exec_seconds = 10;          // with fork_each: an execution running longer hangs
};

// With fork_each: ends the process of the current execution from wherever it is.
[[noreturn]] void finish(Ctx& x, bool pruned);
[[noreturn]] void finish_failed(Ctx& x, const std::string& msg, const std::string& key = "");

struct Tier { bool thorough; bool operator()() const { return thorough; } };

// Defined by each driver.
struct Property {
  const char* id;
  const char* level;                 // evidence level
  const char* rule;                  // for exploration / fault_enumeration levels
  std::vector<std::string> assumptions;
  std::function<std::vector<Exploration>(bool thorough)> explorations;
};
extern Property property;
// A driver may define this to run something else in the same program: called first in main, its result, unless negative, ends main.
int child() __attribute__((weak));

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
std::string quote(const std::string& s, size_t max = 400);

} // namespace mc
