#include "simos.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <functional>

#include "hooks.h"

namespace sim {
namespace {

struct Open {
  OsFileP f;
  uint64_t pos = 0;
  int flags = 0;
};

struct Kernel {
  Run& r;
  OsCfg& cfg;
  OsResult& res;
  pid_t pid;
  std::map<int, std::shared_ptr<Open>> fds;

  bool get(uint64_t addr, void* p, size_t n) {
    while (n > 0) {
      iovec l{p, n}, q{(void*)addr, n};
      ssize_t k = process_vm_readv(pid, &l, 1, &q, 1, 0);
      if (k <= 0) return false;
      p = (char*)p + k;
      addr += (uint64_t)k;
      n -= (size_t)k;
    }
    return true;
  }
  bool put(uint64_t addr, const void* p, size_t n) {
    while (n > 0) {
      iovec l{(void*)p, n}, q{(void*)addr, n};
      ssize_t k = process_vm_writev(pid, &l, 1, &q, 1, 0);
      if (k <= 0) return false;
      p = (const char*)p + k;
      addr += (uint64_t)k;
      n -= (size_t)k;
    }
    return true;
  }
  std::string str(uint64_t addr) {
    std::string s;
    for (;;) {
      size_t n = 4096 - (addr & 4095);
      char b[4096];
      if (n > 256) n = 256;
      if (!get(addr, b, n)) return s;
      for (size_t i = 0; i < n; i++) {
        if (!b[i]) return s;
        s += b[i];
      }
      addr += n;
      if (s.size() > 5000) return s;
    }
  }
  void hard(const char* what) {
    res.hard = true;
    r.fault(what);
  }
  // Somebody else changes an input file between two calls.
  void outside(Open& o) {
    OsFile& f = *o.f;
    if (f.kind != OsFile::REG || f.changed || f.stream || (o.flags & O_ACCMODE) != O_RDONLY) return;
    if (r.ch.chance(cfg.shrink) && !f.data.empty()) {
      f.before_change = f.data;
      f.changed = true;
      f.data.resize(r.ch.below(f.data.size()));
      hard("input file truncated while being read");
      r.ev("%s is truncated to %zu bytes", f.name.c_str(), f.data.size());
    } else if (r.ch.chance(cfg.grow)) {
      f.before_change = f.data;
      f.changed = true;
      size_t n = 1 + r.ch.below(6000);
      for (size_t i = 0; i < n; i++) f.data.push_back((uint8_t)(0x31 + i * 7));
      hard("input file appended to while being read");
      r.ev("%s grows to %zu bytes", f.name.c_str(), f.data.size());
    }
  }
  // Scatter/gather: the total the caller asks for, and the pieces.
  struct Vec {
    std::vector<std::pair<uint64_t, uint64_t>> v;
    uint64_t n = 0;
  };
  Vec vec1(uint64_t a, uint64_t n) {
    Vec v;
    v.v.push_back({a, n});
    v.n = n;
    return v;
  }
  Vec vecn(uint64_t a, uint64_t cnt) {
    Vec v;
    for (uint64_t i = 0; i < cnt && i < 1024; i++) {
      iovec x{};
      get(a + i * sizeof x, &x, sizeof x);
      v.v.push_back({(uint64_t)x.iov_base, x.iov_len});
      v.n += x.iov_len;
    }
    return v;
  }
  int64_t do_read(Open& o, const Vec& v, uint64_t* at) {
    OsFile& f = *o.f;
    outside(o);
    if (f.kind == OsFile::DIR) return -EISDIR;
    if (r.ch.chance(cfg.eintr)) {
      hard("read interrupted");
      return -EINTR;
    }
    if (r.ch.chance(cfg.eio_read)) {
      hard("read error");
      return -EIO;
    }
    uint64_t avail = f.data.size() > *at ? f.data.size() - *at : 0;
    uint64_t n = std::min(v.n, avail);
    if (f.kind == OsFile::FIFO) n = std::min<uint64_t>(n, 65536);
    if (n > 1 && r.ch.chance(cfg.short_read)) {
      n = r.ch.flag() ? 1 + r.ch.below(std::min<uint64_t>(n - 1, 16)) : 1 + r.ch.below(n - 1);
      r.fault("short read");
    }
    if (n == 0 && v.n > 0) res.in_eof = true;
    uint64_t left = n;
    for (auto& x : v.v) {
      uint64_t k = std::min(left, x.second);
      if (k && !put(x.first, &f.data[*at], k)) return -EFAULT;
      *at += k;
      left -= k;
    }
    return (int64_t)n;
  }
  int64_t do_write(Open& o, const Vec& v, uint64_t* at) {
    OsFile& f = *o.f;
    if (f.reliable) {
      for (auto& x : v.v) {
        size_t b = f.data.size();
        f.data.resize(b + x.second);
        if (x.second && !get(x.first, &f.data[b], x.second)) return -EFAULT;
      }
      return (int64_t)v.n;
    }
    if (r.ch.chance(cfg.eintr)) {
      hard("write interrupted");
      return -EINTR;
    }
    if (r.ch.chance(cfg.eio_write)) {
      if (f.kind == OsFile::FIFO) {
        hard("write to a closed pipe");
        return -EPIPE;
      }
      hard("write error");
      return -EIO;
    }
    uint64_t n = v.n;
    if (f.kind == OsFile::REG && (o.flags & O_APPEND)) *at = f.data.size();
    if (*at + n > f.capacity) {
      n = f.capacity > *at ? f.capacity - *at : 0;
      if (n == 0 && v.n > 0) {
        hard("disk full");
        return -ENOSPC;
      }
      r.fault("disk full in the middle of a write");
      res.hard = true;
    }
    if (n > 1 && r.ch.chance(cfg.short_write)) {
      n = r.ch.flag() ? 1 + r.ch.below(std::min<uint64_t>(n - 1, 16)) : 1 + r.ch.below(n - 1);
      r.fault("short write");
    }
    uint64_t left = n;
    if (f.kind == OsFile::FIFO) *at = f.data.size();
    for (auto& x : v.v) {
      uint64_t k = std::min(left, x.second);
      if (!k) continue;
      if (f.data.size() < *at + k) f.data.resize(*at + k);
      if (!get(x.first, &f.data[*at], k)) return -EFAULT;
      *at += k;
      left -= k;
    }
    return (int64_t)n;
  }
  int64_t do_seek(Open& o, int64_t off, int whence) {
    OsFile& f = *o.f;
    if (f.kind == OsFile::FIFO) return -ESPIPE;
    if (f.kind == OsFile::REG) outside(o);
    if (r.ch.chance(cfg.seek_fail)) {
      hard("seek failed");
      return r.ch.flag() ? -EIO : -EOVERFLOW;
    }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o.pos : whence == SEEK_END ? (int64_t)(f.kind == OsFile::DIR ? f.dir_size : f.data.size()) : -1;
    if (base < 0 || base + off < 0) return -EINVAL;
    o.pos = (uint64_t)(base + off);
    return (int64_t)o.pos;
  }
  int64_t do_stat(Open& o, uint64_t addr) {
    OsFile& f = *o.f;
    outside(o);
    if (r.ch.chance(cfg.stat_fail)) {
      hard("stat failed");
      return -EIO;
    }
    struct stat s;
    memset(&s, 0, sizeof s);
    s.st_dev = 1;
    s.st_ino = 1000 + (ino_t)(hash_bytes(f.name.data(), f.name.size()) & 0xffff);
    s.st_nlink = 1;
    s.st_blksize = 4096;
    s.st_mode = f.kind == OsFile::REG ? S_IFREG | 0644 : f.kind == OsFile::DIR ? S_IFDIR | 0755 : S_IFIFO | 0600;
    s.st_size = f.kind == OsFile::REG ? (off_t)f.data.size() : f.kind == OsFile::DIR ? 4096 : 0;
    s.st_blocks = (s.st_size + 511) / 512;
    return put(addr, &s, sizeof s) ? 0 : -EFAULT;
  }

  // One system call. True: answered here with *ret. `after`: what to do when
  // the real one has returned.
  bool entry(const user_regs_struct& g, int64_t* ret, std::function<int64_t(int64_t)>* after);
};

const char* err(int64_t v, char* b, size_t n) {
  if (v >= 0) snprintf(b, n, "%" PRId64, v);
  else snprintf(b, n, "%s", strerrorname_np((int)-v));
  return b;
}

bool Kernel::entry(const user_regs_struct& g, int64_t* ret, std::function<int64_t(int64_t)>* after) {
  char b[64];
  auto nr = (long)g.orig_rax;
  // by name
  std::string path;
  int flags = 0;
  bool opening = false;
  if (nr == SYS_openat) {
    path = str(g.rsi);
    flags = (int)g.rdx;
    opening = true;
  } else if (nr == SYS_open) {
    path = str(g.rdi);
    flags = (int)g.rsi;
    opening = true;
  }
  if (opening) {
    if (path.substr(0, 2) == "./") path = path.substr(2);
    auto it = cfg.files.find(path);
    if (it == cfg.files.end()) return false;
    res.calls++;
    OsFileP f = it->second;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    int e = 0;
    if (f->kind == OsFile::MISSING && !(flags & O_CREAT)) e = ENOENT;
    else if (f->kind == OsFile::DIR && wr) e = EISDIR;
    else if (r.ch.chance(cfg.open_fail)) {
      static const int es[] = {EACCES, EMFILE, ENFILE, ENOMEM, EINTR, EIO, ENOSPC};
      e = es[r.ch.below(wr ? 7 : 6)];
      hard(wr ? "output file cannot be opened" : "input file cannot be opened");
    }
    if (e) {
      *ret = -e;
      r.ev("open(%s) = %s", path.c_str(), err(-e, b, sizeof b));
      return true;
    }
    r.ev("open(%s)%s%s", path.c_str(), wr ? " for writing" : "", flags & O_TRUNC ? ", truncating" : "");
    *after = [this, f, flags, wr](int64_t fd) -> int64_t {
      if (fd < 0) fatal("infra", "the scratch file cannot be opened");
      auto o = std::make_shared<Open>();
      o->f = f;
      o->flags = flags;
      if (f->kind == OsFile::MISSING) f->kind = OsFile::REG;
      if (wr && (flags & O_TRUNC)) {
        f->data.clear();
        f->was_truncated = true;
      }
      fds[(int)fd] = o;
      return fd;
    };
    return false;
  }
  // by descriptor
  int fd = (int)g.rdi;
  if (nr == SYS_mmap) fd = (int)g.r8;
  auto it = fds.find(fd);
  if (it == fds.end()) return false;
  std::shared_ptr<Open> o = it->second;
  const char* nm = o->f->name.c_str();
  auto log = [&](const char* call, uint64_t n) { r.ev("%s(%s, %" PRIu64 ") = %s", call, nm, n, err(*ret, b, sizeof b)); };
  switch (nr) {
    case SYS_read:
    case SYS_readv: {
      Vec v = nr == SYS_read ? vec1(g.rsi, g.rdx) : vecn(g.rsi, g.rdx);
      *ret = do_read(*o, v, &o->pos);
      log("read", v.n);
      break;
    }
    case SYS_pread64: {
      uint64_t at = g.r10;
      *ret = do_read(*o, vec1(g.rsi, g.rdx), &at);
      log("pread", g.rdx);
      break;
    }
    case SYS_write:
    case SYS_writev: {
      Vec v = nr == SYS_write ? vec1(g.rsi, g.rdx) : vecn(g.rsi, g.rdx);
      *ret = do_write(*o, v, &o->pos);
      log("write", v.n);
      break;
    }
    case SYS_pwrite64: {
      uint64_t at = g.r10;
      *ret = do_write(*o, vec1(g.rsi, g.rdx), &at);
      log("pwrite", g.rdx);
      break;
    }
    case SYS_lseek:
      *ret = do_seek(*o, (int64_t)g.rsi, (int)g.rdx);
      log(g.rdx == SEEK_SET ? "seek" : g.rdx == SEEK_CUR ? "seek-cur" : "seek-end", g.rsi);
      break;
    case SYS_fstat:
      *ret = do_stat(*o, g.rsi);
      log("stat", 0);
      break;
    case SYS_newfstatat: {
      if (!str(g.rsi).empty()) return false;
      *ret = do_stat(*o, g.rdx);
      log("stat", 0);
      break;
    }
    case SYS_fsync:
    case SYS_fdatasync:
      *ret = 0;
      if (r.ch.chance(cfg.eio_write)) {
        hard("sync failed");
        *ret = -EIO;
      }
      log("sync", 0);
      break;
    case SYS_ftruncate:
      o->f->data.resize(g.rsi);
      *ret = 0;
      log("truncate", g.rsi);
      break;
    case SYS_dup:
      *after = [this, o](int64_t n) {
        if (n >= 0) fds[(int)n] = o;
        return n;
      };
      return false;
    case SYS_close: {
      bool fail = r.ch.chance(cfg.close_fail);
      bool wr = (o->flags & O_ACCMODE) != O_RDONLY;
      if (fail) hard(wr ? "output file cannot be closed" : "input file cannot be closed");
      r.ev("close(%s)%s", nm, fail ? " fails" : "");
      fds.erase(fd);
      *after = [fail](int64_t v) -> int64_t { return fail ? -EIO : v; };
      return false;
    }
    default:
      return false;
  }
  res.calls++;
  return true;
}

void write_file(const std::string& p, const Bytes& d) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  size_t at = 0;
  while (fd >= 0 && at < d.size()) {
    ssize_t k = write(fd, d.data() + at, d.size() - at);
    if (k <= 0) break;
    at += (size_t)k;
  }
  if (fd < 0 || at < d.size()) fatal("infra", "cannot write a scratch file");
  close(fd);
}

}  // namespace

OsResult run_prog(Run& r, OsCfg& cfg) {
  OsResult res;
  mkdir(cfg.dir.c_str(), 0755);
  for (auto& x : cfg.files) {
    std::string p = cfg.dir + "/" + x.first;
    x.second->name = x.first;
    if (x.second->kind == OsFile::DIR) mkdir(p.c_str(), 0755);
    else if (x.second->kind == OsFile::MISSING) unlink(p.c_str());
    else write_file(p, x.second->data);   // what a mapping or a stat by name sees
  }
  std::vector<char*> av;
  std::string nm = "prog";
  av.push_back(nm.data());
  for (auto& a : cfg.args) av.push_back(a.data());
  av.push_back(nullptr);
  char lc[] = "LC_ALL=C";
  char* env[] = {lc, nullptr};
  pid_t pid = fork();
  if (pid < 0) fatal("infra", "fork");
  if (pid == 0) {
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    dup2(nul, 2);
    if (chdir(cfg.dir.c_str())) _exit(99);
    for (int i = 3; i < 64; i++) close(i);
    rlimit cpu{20, 20};
    setrlimit(RLIMIT_CPU, &cpu);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(98);
    raise(SIGSTOP);
    execve(cfg.prog.c_str(), av.data(), env);
    _exit(97);
  }
  int st = 0;
  auto wait = [&] {
    while (waitpid(pid, &st, 0) < 0)
      if (errno != EINTR) fatal("infra", "waitpid");
  };
  wait();
  if (!WIFSTOPPED(st)) fatal("infra", "the traced program did not start");
  if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC)) fatal("infra", "ptrace options");
  Kernel k{r, cfg, res, pid, {}};
  auto std_fd = [&](int fd, OsFileP f, const char* name, int flags) {
    if (!f) return;
    f->name = name;
    f->stream = true;
    auto o = std::make_shared<Open>();
    o->f = f;
    o->flags = flags;
    k.fds[fd] = o;
  };
  std_fd(0, cfg.in, "stdin", O_RDONLY);
  std_fd(1, cfg.out, "stdout", O_WRONLY);
  bool started = false, inside = false, faked = false;
  int64_t ret = 0;
  std::function<int64_t(int64_t)> after;
  int sig = 0;
  uint64_t stops = 0;
  for (;;) {
    if (ptrace(started ? PTRACE_SYSCALL : PTRACE_CONT, pid, 0, sig)) fatal("infra", "ptrace resume");
    sig = 0;
    wait();
    if (WIFEXITED(st)) {
      res.exited = true;
      res.code = WEXITSTATUS(st);
      if (!started) fatal("infra", "the traced program did not run");
      break;
    }
    if (WIFSIGNALED(st)) {
      res.sig = WTERMSIG(st);
      break;
    }
    if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) {
      started = true;
      inside = true;   // the exec call itself is still to return
      continue;
    }
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
      sig = WSTOPSIG(st);
      continue;
    }
    if (++stops > 400000 || r.ch.tape().size() > 2000000) {
      res.stuck = true;
      kill(pid, SIGKILL);
      wait();
      break;
    }
    user_regs_struct g;
    if (!inside) {
      inside = true;
      faked = false;
      after = nullptr;
      if (ptrace(PTRACE_GETREGS, pid, 0, &g)) fatal("infra", "ptrace regs");
      if (k.entry(g, &ret, &after)) {
        faked = true;
        g.orig_rax = (unsigned long long)-1;
        if (ptrace(PTRACE_SETREGS, pid, 0, &g)) fatal("infra", "ptrace regs");
      }
    } else {
      inside = false;
      if (faked || after) {
        if (ptrace(PTRACE_GETREGS, pid, 0, &g)) fatal("infra", "ptrace regs");
        if (after) ret = after((int64_t)g.rax);
        g.rax = (unsigned long long)ret;
        if (ptrace(PTRACE_SETREGS, pid, 0, &g)) fatal("infra", "ptrace regs");
        faked = false;
        after = nullptr;
      }
    }
  }
  if (res.exited) r.ev("exit status %d", res.code);
  else r.ev("killed by signal %d", res.sig);
  r.st.sim_time += res.calls * 10;
  r.count("system calls simulated", res.calls);
  for (auto& x : cfg.files) {
    std::string p = cfg.dir + "/" + x.first;
    if (x.second->kind == OsFile::DIR) rmdir(p.c_str());
    else unlink(p.c_str());
  }
  return res;
}

}  // namespace sim
