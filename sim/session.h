// A simulated deployment: one sender, a faulty network or disk, receivers.
#pragma once
#include "world.h"

namespace sim {

struct NetCfg {
  unsigned loss = 0, dup = 0, corrupt = 0, reorder = 0, restart = 0, truncate = 0;  // permille
  unsigned spell = 0;   // permille per step that a bad spell begins
  uint64_t latency = 5000, jitter = 20000;  // us
};
NetCfg draw_net(Run& r, bool allow_faults = true);

struct SessCfg {
  unsigned oracles = 0;
  SenderCfg sc;
  PackCfg pc;
  NetCfg net;
  unsigned receivers = 1;
  unsigned steps = 12;
  unsigned max_batch = 5;
};

struct Receiver {
  std::unique_ptr<State> st;
  std::unique_ptr<Shadow> sh;
  std::string name;
  unsigned lives = 1;
};

class Session {
 public:
  Session(Run& r, const SessCfg& cfg, const char* name);
  virtual ~Session() {}
  void step();                 // sender emits, network schedules, due deliveries happen
  void drain();                // everything in flight arrives
  void stop_faults() {
    cfg_.net = NetCfg();
    bad_left_ = 0;
  }
  void converge();             // faults off, sender repeats its sets and sends some more
  virtual void deliver_to(Receiver& rx, const Packed& p);
  virtual void before_judgement() {}
  Run& r;
  SessCfg cfg_;
  Sender s;
  std::vector<Receiver> rx;
  uint64_t now = 0;

 protected:
  void send(const std::vector<UP>& us);
  void run_until(uint64_t t);
  struct Ev {
    uint64_t at, seq;
    unsigned rx;
    std::shared_ptr<Packed> p;
    bool operator<(const Ev& o) const { return at != o.at ? at > o.at : seq > o.seq; }
  };
  NetCfg bad_;              // the network during a bad spell
  unsigned bad_left_ = 0;   // steps it still lasts
  std::priority_queue<Ev> q_;
  uint64_t seq_ = 0;
  std::string name_;
};

// Damages a packet somewhere (reference framing stays exact).
const char* corrupt_packet(Run& r, Packed& p);
void fill_memory(Run& r);

using PropFn = void (*)(Run& r, bool thorough);
struct Prop {
  const char* id;
  PropFn fn;
  unsigned quick_runs, thorough_runs, batch;
};
const std::vector<Prop>& props();

}  // namespace sim
