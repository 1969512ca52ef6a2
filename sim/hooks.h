// Process-level seams: allocator, executed-edge clock, fatal-error capture.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

struct Meter {
  // simulated clock: control-flow edges executed by library code
  uint64_t edges = 0;
  uint64_t edge_limit = 0;  // 0: none
  // allocator
  uint64_t alloc_total = 0;   // bytes requested since reset
  uint64_t alloc_count = 0;
  uint64_t alloc_live = 0;
  uint64_t alloc_peak = 0;
  uint64_t alloc_limit = 0;   // peak limit, 0: none
  bool metering = false;
  uint64_t fill = 0;          // 0: leave fresh memory alone
  unsigned recycle = 0;       // freed blocks kept per size, handed out again at once (0: quarantined)
};
// Gives the blocks kept for recycling back.
void recycle_flush();
extern Meter g_meter;
extern void (*g_edge_hook)(uint32_t guard);  // scheduler, when set
extern uint8_t* g_cov;       // shared coverage map (may be null)
constexpr uint32_t kCovSize = 1 << 16;
uint32_t cov_edges();        // number of instrumented edges

// Record a fatal class and leave the process.
[[noreturn]] void fatal(const char* cls, const char* msg);
void set_fatal_fd(int fd);
void install_fatal_handlers();

// Overwrite a good deal of dead stack with seeded bytes.
void scribble_stack(uint64_t seed);

}  // namespace sim
