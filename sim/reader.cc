// Calls H265Utils::ReadFile for each argument ("" stands for a null name), all
// into one vector, and hands the last outcome to the simulator.
#include <string.h>
#include <unistd.h>

#include <cstdio>
#include <vector>

#include "h265_utils.h"

static void out(const void* p, size_t n) {
  const char* b = static_cast<const char*>(p);
  while (n > 0) {
    ssize_t k = write(1, b, n);
    if (k <= 0) _exit(96);
    b += k;
    n -= static_cast<size_t>(k);
  }
}

int main(int argc, char** argv) {
  std::vector<uint8_t> v;
  for (int i = 1; i < argc; i++) {
    int rc = h265nal::H265Utils::ReadFile(argv[i][0] ? argv[i] : nullptr, v);
    if (i + 1 < argc) continue;
    char b[64];
    int n = snprintf(b, sizeof b, "%s %zu\n", rc < 0 ? "failed" : "read", v.size());
    out(b, static_cast<size_t>(n));
    if (rc >= 0) out(v.data(), v.size());
  }
  return 0;
}
