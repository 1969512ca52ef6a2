#include "pristine.h"

#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "lib.h"

namespace sim {
static int g_to = -1, g_from = -1;

static bool all_in(int fd, void* p, size_t n) {
  char* b = (char*)p;
  while (n) {
    ssize_t k = read(fd, b, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    b += k;
    n -= (size_t)k;
  }
  return true;
}
static bool all_out(int fd, const void* p, size_t n) {
  const char* b = (const char*)p;
  while (n) {
    ssize_t k = write(fd, b, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    b += k;
    n -= (size_t)k;
  }
  return true;
}

static void serve(int in, int out) {
  for (;;) {
    uint64_t total;
    if (!all_in(in, &total, 8)) _exit(0);
    std::string q(total, 0);
    if (!all_in(in, &q[0], total)) _exit(0);
    pid_t p = fork();
    if (p < 0) _exit(3);
    if (p == 0) {
      size_t i = 0;
      auto u = [&] {
        uint64_t v;
        memcpy(&v, &q[i], 8);
        i += 8;
        return v;
      };
      auto bytes = [&] {
        uint64_t n = u();
        Bytes b(q.begin() + (long)i, q.begin() + (long)(i + n));
        i += n;
        return b;
      };
      g_meter = Meter();
      g_meter.alloc_limit = 3ull << 30;
      g_meter.fill = u();
      g_meter.metering = true;
      uint64_t items = u(), h = UINT64_MAX;
      for (uint64_t k = 0; k < items && h == UINT64_MAX; k++) {
        uint64_t want = u(), n = u();
        State st;
        Opt o;
        while (n--) {
          Bytes b = bytes();
          hn::H265NalUnitParser::ParseNalUnitUnescaped(b.data(), b.size(), &st, o);
        }
        Bytes b = bytes();
        scribble_stack(g_meter.fill + k);
        auto r = hn::H265NalUnitParser::ParseNalUnitUnescaped(b.data(), b.size(), &st, o);
        if (rep_of(r.get()).pay.hash() != want) h = k;
      }
      if (!all_out(out, &h, 8)) _exit(4);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    uint64_t ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!ok) {
      uint64_t h = 0;
      all_out(out, &h, 8);
    }
    all_out(out, &ok, 8);
  }
}

void start_pristine() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return;
  pid_t p = fork();
  if (p < 0) return;
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(a[1]);
    close(b[0]);
    serve(a[0], b[1]);
  }
  close(a[0]);
  close(b[1]);
  g_to = a[1];
  g_from = b[0];
}

size_t pristine(const std::vector<const PristineItem*>& items, uint64_t fill, bool* crashed) {
  *crashed = false;
  if (g_to < 0) fatal("infra", "no pristine process");
  std::string q;
  auto u = [&](uint64_t v) { q.append((char*)&v, 8); };
  auto bytes = [&](const Bytes& b) {
    u(b.size());
    q.append((const char*)b.data(), b.size());
  };
  u(0);
  u(fill);
  u(items.size());
  for (auto* it : items) {
    u(it->hash);
    u(it->sets.size());
    for (auto& s : it->sets) bytes(s);
    bytes(it->unit);
  }
  uint64_t total = q.size() - 8;
  memcpy(&q[0], &total, 8);
  uint64_t a[2];
  if (!all_out(g_to, q.data(), q.size()) || !all_in(g_from, a, 16)) fatal("infra", "the pristine process is gone");
  *crashed = !a[1];
  return a[0];
}

}  // namespace sim
