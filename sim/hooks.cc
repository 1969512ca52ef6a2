#include "hooks.h"

#include <malloc.h>
#include <sanitizer/asan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <exception>
#include <new>

namespace sim {
Meter g_meter;
void (*g_edge_hook)(uint32_t) = nullptr;
uint8_t* g_cov = nullptr;
static uint32_t g_edges_total = 0;
static int g_fatal_fd = 2;
uint32_t cov_edges() { return g_edges_total; }
void set_fatal_fd(int fd) { g_fatal_fd = fd; }

void fatal(const char* cls, const char* msg) {
  char b[1024];
  int n = snprintf(b, sizeof b, "FATAL %s|%s\n", cls, msg);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  (void)!write(g_fatal_fd, b, (size_t)n);
  _exit(77);
}

static void on_terminate() {
  const char* what = "terminate";
  static char b[256];
  if (std::exception_ptr p = std::current_exception()) {
    try {
      std::rethrow_exception(p);
    } catch (const std::exception& e) {
      snprintf(b, sizeof b, "uncaught exception: %s", e.what());
      what = b;
    } catch (...) {
      what = "uncaught exception";
    }
  }
  fatal("terminate", what);
}
void install_fatal_handlers() { std::set_terminate(on_terminate); }

__attribute__((noinline, no_sanitize("address", "undefined"))) void scribble_stack(uint64_t seed) {
  volatile uint64_t a[6000];
  uint64_t v = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
  for (size_t i = 0; i < sizeof a / sizeof a[0]; i++) {
    v ^= v << 13;
    v ^= v >> 7;
    v ^= v << 17;
    a[i] = v;
  }
}

static inline void account(void* p, size_t n) {
  Meter& m = g_meter;
  if (m.fill) {
    // seeded fill: whatever reads memory it never wrote sees different values
    // in different runs of the same call
    unsigned char* b = static_cast<unsigned char*>(p);
    uint64_t v = m.fill + n * 0x9e3779b97f4a7c15ull;
    size_t k = n < 8192 ? n : 8192;
    for (size_t i = 0; i < k; i++) {
      if ((i & 7) == 0) v = (v ^ (v >> 29)) * 0xbf58476d1ce4e5b9ull + 1;
      b[i] = (unsigned char)(v >> ((i & 7) * 8));
    }
  }
  if (!m.metering) return;
  m.alloc_total += n;
  m.alloc_count++;
  m.alloc_live += n;
  if (m.alloc_live > m.alloc_peak) m.alloc_peak = m.alloc_live;
  if (m.alloc_limit && m.alloc_peak > m.alloc_limit) fatal("memory-limit", "allocation beyond the simulated memory");
}
// An allocator as deployments have it gives a block that was just freed to the
// next request of its size: what a stale address points to is a new object then.
namespace {
constexpr size_t kRecycleMax = 8192, kRecycleDepth = 64;
struct Bin {
  void* p[kRecycleDepth];
  unsigned n;
};
Bin g_bins[kRecycleMax / 8 + 1];   // of the sizes 8i-7 .. 8i
uint32_t g_sizes[kRecycleMax / 8 + 1][kRecycleDepth];
}  // namespace
void recycle_flush() {
  for (auto& b : g_bins) {
    for (unsigned i = 0; i < b.n; i++) {
      size_t n = g_sizes[&b - g_bins][i];
      __asan_unpoison_memory_region(b.p[i], n);
      free(b.p[i]);
    }
    b.n = 0;
  }
}
static inline void* get(size_t n) {
  if (g_meter.metering && g_meter.alloc_limit && n > g_meter.alloc_limit)
    fatal("memory-limit", "allocation beyond the simulated memory");
  if (g_meter.recycle && n && n <= kRecycleMax) {
    size_t k = (n + 7) / 8;
    Bin& b = g_bins[k];
    for (unsigned i = b.n; i-- > 0;) {
      if (g_sizes[k][i] != n) continue;
      void* p = b.p[i];
      b.n--;
      b.p[i] = b.p[b.n];
      g_sizes[k][i] = g_sizes[k][b.n];
      __asan_unpoison_memory_region(p, n);
      account(p, n);
      return p;
    }
  }
  void* p = malloc(n ? n : 1);
  if (!p) fatal("memory-limit", "malloc failed");
  account(p, n);
  return p;
}
static inline void put(void* p) {
  if (!p) return;
  size_t n = 0;
  if (g_meter.metering || g_meter.recycle) n = malloc_usable_size(p);
  if (g_meter.metering) g_meter.alloc_live = g_meter.alloc_live > n ? g_meter.alloc_live - n : 0;
  if (g_meter.recycle && n && n <= kRecycleMax) {
    if (__asan_address_is_poisoned(p)) fatal("asan:double-free", "a block was freed twice");
    size_t k = (n + 7) / 8;
    Bin& b = g_bins[k];
    if (b.n < g_meter.recycle && b.n < kRecycleDepth) {
      __asan_poison_memory_region(p, n);
      g_sizes[k][b.n] = (uint32_t)n;
      b.p[b.n++] = p;
      return;
    }
  }
  free(p);
}
}  // namespace sim

void* operator new(size_t n) { return sim::get(n); }
void* operator new[](size_t n) { return sim::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::get(n); }
void operator delete(void* p) noexcept { sim::put(p); }
void operator delete[](void* p) noexcept { sim::put(p); }
void operator delete(void* p, size_t) noexcept { sim::put(p); }
void operator delete[](void* p, size_t) noexcept { sim::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::put(p); }

extern "C" {
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept {
  const char* s = strrchr(file, '/');
  char b[512];
  (void)line;
  snprintf(b, sizeof b, "assertion `%s' in %s (%s)", e, fn ? fn : "?", s ? s + 1 : file);
  sim::fatal("assert", b);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* p = start; p < stop; p++) *p = ++sim::g_edges_total;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  sim::Meter& m = sim::g_meter;
  m.edges++;
  if (sim::g_cov) sim::g_cov[*g & (sim::kCovSize - 1)] = 1;
  if (m.edge_limit && m.edges > m.edge_limit)
    sim::fatal("no-termination", "step limit exceeded");
  if (sim::g_edge_hook) sim::g_edge_hook(*g);
}
const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=78:handle_abort=1:detect_stack_use_after_return=0:"
         "allocator_may_return_null=1:max_allocation_size_mb=4096:print_legend=0:quarantine_size_mb=16:"
         "malloc_context_size=4:symbolize=0:fast_unwind_on_malloc=1:detect_container_overflow=1:"
         "handle_segv=1:allow_user_segv_handler=0:print_scariness=0";
}
const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=79:halt_on_error=1"; }
}
