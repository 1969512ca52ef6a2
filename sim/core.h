// Simulation core: the choice source (one PRNG decides everything), the event
// log, fault/probe counters and the violation type.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

inline uint64_t splitmix64(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 0x100000001b3ull;
  }
  return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) {
  uint64_t s = h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2));
  return splitmix64(s);
}

using Bytes = std::vector<uint8_t>;

// Every decision of a run is a draw from this object. In generation mode the
// draws come from one PRNG and are recorded (already reduced to their range);
// in replay mode they come from a recorded tape, and are 0 past its end. By
// convention 0 is always the simplest choice (no fault, smallest value).
struct TapeSink {            // survives a crashing process (shared memory)
  uint64_t n = 0, cap = 0;
  uint64_t* v = nullptr;
};
inline TapeSink g_sink;

class Choices {
 public:
  struct Span {
    size_t b, e;
  };
  explicit Choices(uint64_t seed) : state_(seed), replay_(false) {}
  explicit Choices(std::vector<uint64_t> tape)
      : tape_in_(std::move(tape)), replay_(true) {}
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < tape_in_.size() ? tape_in_[pos_] % n : 0;
      pos_++;
    } else if (echo_at_ < echo_.size()) {
      v = echo_[echo_at_] % n;
      if (echo_change_.count(echo_at_)) v = splitmix64(state_) % n;
      echo_at_++;
    } else {
      v = splitmix64(state_) % n;
    }
    tape_.push_back(v);
    if (g_sink.v && g_sink.n + 1 < g_sink.cap) {
      g_sink.v[1 + g_sink.n++] = v;
      g_sink.v[0] = g_sink.n;
    }
    return v;
  }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool flag() { return below(2) != 0; }
  // true with probability permille/1000; 0 on the tape means false
  bool chance(unsigned permille) {
    if (permille == 0) return false;
    return below(1000) >= 1000 - permille;
  }
  size_t begin() {
    spans_.push_back({tape_.size(), tape_.size()});
    return spans_.size() - 1;
  }
  void end(size_t id) { spans_[id].e = tape_.size(); }
  // Until echo_off, repeat the draws [b, e) but for `changes` of them. The tape
  // records the values, so a replay needs none of this.
  void echo(size_t b, size_t e, unsigned changes) {
    if (replay_ || b >= e || e > tape_.size()) return;
    echo_.assign(tape_.begin() + (long)b, tape_.begin() + (long)e);
    echo_at_ = 0;
    echo_change_.clear();
    // what a unit's later draws mean depends on the first ones: change those more often
    for (unsigned i = 0; i < changes; i++) {
      uint64_t x = splitmix64(state_);
      echo_change_.insert((size_t)((x >> 32) % (x & 1 || echo_.size() < 40 || changes > 8 ? echo_.size() : 40)));
    }
  }
  void echo_off() { echo_.clear(); }
  const std::vector<uint64_t>& tape() const { return tape_; }
  const std::vector<Span>& spans() const { return spans_; }

 private:
  uint64_t state_ = 0;
  std::vector<uint64_t> tape_in_;
  bool replay_;
  size_t pos_ = 0;
  std::vector<uint64_t> tape_;
  std::vector<Span> spans_;
  std::vector<uint64_t> echo_;
  size_t echo_at_ = 0;
  std::set<size_t> echo_change_;
};
struct SpanGuard {
  Choices& c;
  size_t id;
  explicit SpanGuard(Choices& ch) : c(ch), id(ch.begin()) {}
  ~SpanGuard() { c.end(id); }
};

struct Violation {
  std::string cls;  // stable class: the minimiser keeps this constant
  std::string msg;
};

// Thrown when a run is not meaningful (never counted as a pass of anything).
struct Discard {};

struct Stats {
  std::map<std::string, uint64_t> faults;   // fault kinds that actually fired
  std::map<std::string, uint64_t> probes;   // rare conditions that were reached
  std::map<std::string, uint64_t> counts;   // amounts of work done
  std::unordered_set<uint64_t> states;      // distinct abstract states
  uint64_t sim_time = 0;                    // simulated clock (us or edges)
  void add(const Stats& o) {
    for (auto& k : o.faults) faults[k.first] += k.second;
    for (auto& k : o.probes) probes[k.first] += k.second;
    for (auto& k : o.counts) counts[k.first] += k.second;
    for (auto v : o.states) states.insert(v);
    sim_time += o.sim_time;
  }
};

class Run {
 public:
  Run(Choices& c, bool verbose) : ch(c), verbose_(verbose) {}
  Choices& ch;
  Stats st;
  uint64_t log_hash = 0x1234567;
  uint64_t events = 0;
  std::vector<std::string> text;

  void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    log_hash = mix(log_hash, hash_bytes(buf, (size_t)n));
    events++;
    if (verbose_) text.push_back(buf);
  }
  void evh(const char* what, uint64_t h) {
    log_hash = mix(mix(log_hash, hash_bytes(what, strlen(what))), h);
    events++;
    if (verbose_) {
      char buf[256];
      snprintf(buf, sizeof buf, "%s = %016" PRIx64, what, h);
      text.push_back(buf);
    }
  }
  void fault(const char* kind) { st.faults[kind]++; }
  void probe(const char* what) { st.probes[what]++; }
  void count(const char* what, uint64_t n = 1) { st.counts[what] += n; }
  void state(uint64_t h) { st.states.insert(h); }
  bool verbose() const { return verbose_; }
  [[noreturn]] void fail(const std::string& cls, const char* fmt, ...)
      __attribute__((format(printf, 3, 4))) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log_hash = mix(log_hash, hash_bytes(buf, strlen(buf)));
    if (verbose_) text.push_back(std::string("VIOLATED ") + cls + ": " + buf);
    throw Violation{cls, buf};
  }

 private:
  bool verbose_;
};

inline std::string hex(const uint8_t* p, size_t n, size_t max = 64) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  if (n > max) s += "...";
  return s;
}
inline std::string hex(const Bytes& b, size_t max = 64) {
  return hex(b.data(), b.size(), max);
}

}  // namespace sim
