// A simulated kernel for the programs under test: the real binary runs as a
// traced child, and every system call on its input and output files is answered
// by the simulator, from simulated files, with simulated faults.
#pragma once
#include "core.h"

namespace sim {

struct OsFile {
  enum Kind { REG, FIFO, DIR, MISSING } kind = REG;
  Bytes data;
  uint64_t capacity = ~0ull;         // bytes the disk takes
  uint64_t dir_size = 0;             // what seeking to the end of a directory says
  Bytes before_change;               // content before it was truncated or appended to by others
  bool changed = false;
  bool was_truncated = false;        // opened with O_TRUNC
  bool reliable = false;             // no faults here
  bool stream = false;               // standard input: its content is whatever is delivered, nobody changes it
  std::string name;
};
using OsFileP = std::shared_ptr<OsFile>;

struct OsCfg {
  std::string prog, dir;             // binary; working directory, private to this process
  std::vector<std::string> args;
  std::map<std::string, OsFileP> files;
  OsFileP in, out;                   // fd 0 and fd 1
  // permille per system call
  unsigned short_read = 0, short_write = 0;                   // legal, must be ridden out
  unsigned eintr = 0, eio_read = 0, eio_write = 0, open_fail = 0, close_fail = 0, seek_fail = 0, stat_fail = 0;
  unsigned shrink = 0, grow = 0;                              // by somebody else, on regular input files
};
struct OsResult {
  bool exited = false;
  int code = 0, sig = 0;
  bool hard = false;      // a fault happened that may lead to failure
  bool in_eof = false;    // some input was read up to its end
  uint64_t calls = 0;
  bool stuck = false;
};
OsResult run_prog(class Run& r, OsCfg& cfg);

}  // namespace sim
