// The driver: seeds -> runs in forked workers -> merged statistics; on a
// violation: reproduce, minimise, replay twice, write the replay file.
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

#include "pristine.h"
#include "session.h"

namespace sim {

std::string g_cli, g_reader, g_scratch;   // used by the I/O properties

static double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static ssize_t discard(void*, const char*, size_t n) { return (ssize_t)n; }

struct Job {
  const Prop* p;
  bool thorough;
  uint64_t seed;
};
static uint64_t run_seed(const Job& j, uint64_t idx) {
  return mix(mix(j.seed, hash_bytes(j.p->id, strlen(j.p->id))), idx * 2 + j.thorough);
}

// ---- one run, in this process ----
struct Outcome {
  bool bad = false, discarded = false;
  std::string cls, msg;
  uint64_t hash = 0, events = 0;
};
static Outcome one_run(const Job& j, Choices& ch, bool verbose, Stats* st, std::vector<std::string>* text,
                       std::vector<Choices::Span>* spans = nullptr, std::vector<uint64_t>* tape = nullptr) {
  Outcome o;
  Run r(ch, verbose);
  g_meter = Meter();
  g_hostile = Hostile();
  g_meter.edge_limit = 1500000000ull;
  g_meter.metering = true;
  g_meter.alloc_limit = 3ull << 30;
  try {
    j.p->fn(r, j.thorough);
  } catch (Violation& v) {
    o.bad = true;
    o.cls = v.cls;
    o.msg = v.msg;
  } catch (Discard&) {
    o.discarded = true;
  }
  g_edge_hook = nullptr;
  g_meter.edge_limit = 0;
  g_meter.fill = 0;
  g_meter.recycle = 0;
  recycle_flush();
  o.hash = r.log_hash;
  o.events = r.events;
  if (st) st->add(r.st);
  if (text) *text = r.text;
  if (spans) *spans = ch.spans();
  if (tape) *tape = ch.tape();
  return o;
}

// ---- serialisation of a worker's result ----
struct Blob {
  std::string b;
  void u(uint64_t v) { b.append((char*)&v, 8); }
  void s(const std::string& x) {
    u(x.size());
    b += x;
  }
};
struct Unblob {
  const std::string& b;
  size_t i = 0;
  bool ok = true;
  uint64_t u() {
    if (i + 8 > b.size()) {
      ok = false;
      return 0;
    }
    uint64_t v;
    memcpy(&v, &b[i], 8);
    i += 8;
    return v;
  }
  std::string s() {
    uint64_t n = u();
    if (!ok || i + n > b.size()) {
      ok = false;
      return "";
    }
    std::string x = b.substr(i, n);
    i += n;
    return x;
  }
};
static std::string slurp(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  return s;
}
static void spit(const std::string& p, const std::string& s) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) {
    fprintf(stdout, "cannot write %s\n", p.c_str());
    exit(2);
  }
}

struct Shared {
  volatile uint64_t cur[64];
};
static Shared* g_sh;
static std::string g_tmp;

struct ChildSpec {
  Job j;
  uint64_t from = 0, to = 0;        // run indices, by seed
  bool use_tape = false;            // then, after `prefix`, this tape
  std::vector<uint64_t> prefix;     // run indices
  std::vector<uint64_t> tape;
  bool verbose = false;
  unsigned slot = 0;
  bool record = false;              // record the tape of the last run to shared memory
};
struct ChildResult {
  bool infra = false;
  bool bad = false;
  uint64_t bad_idx = 0;
  std::string cls, msg;
  std::vector<std::pair<uint64_t, uint64_t>> hashes;   // run, log hash
  Stats st;
  uint64_t runs = 0, discarded = 0, events = 0;
  std::vector<std::string> text;
  std::vector<Choices::Span> spans;
  std::vector<uint64_t> tape;
};

static void child_main(const ChildSpec& c, const std::string& out) {
  setpgid(0, 0);
  int efd = open((out + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  dup2(efd, 2);
  int nfd = open("/dev/null", O_RDWR);
  dup2(nfd, 0);
  dup2(nfd, 1);
  set_fatal_fd(2);
  install_fatal_handlers();
  cookie_io_functions_t io = {nullptr, discard, nullptr, nullptr};
  FILE* f = fopencookie(nullptr, "w", io);
  setvbuf(f, nullptr, _IOFBF, 4096);
  stderr = f;
  if (!strcmp(c.j.p->id, "C08")) start_pristine();
  Blob b;
  Stats st;
  uint64_t runs = 0, disc = 0, events = 0;
  Outcome o;
  std::vector<std::pair<uint64_t, uint64_t>> hs;
  std::vector<std::string> text;
  std::vector<Choices::Span> spans;
  std::vector<uint64_t> tape;
  uint64_t bad_idx = 0;
  auto go = [&](uint64_t idx, Choices& ch, bool last) {
    g_sh->cur[c.slot] = idx;
    o = one_run(c.j, ch, c.verbose && last, &st, last ? &text : nullptr, last ? &spans : nullptr, last ? &tape : nullptr);
    runs++;
    disc += o.discarded;
    events += o.events;
    hs.push_back({idx, o.hash});
    if (o.bad) bad_idx = idx;
    return !o.bad;
  };
  bool fine = true;
  uint64_t* sv = g_sink.v;
  if (!c.record) g_sink.v = nullptr;
  for (uint64_t p : c.prefix) {
    if (!fine) break;
    g_sink.v = nullptr;
    Choices ch(run_seed(c.j, p));
    fine = go(p, ch, false);
  }
  if (c.use_tape) {
    if (fine) {
      Choices ch(c.tape);
      go(UINT64_MAX, ch, true);
    }
  } else {
    for (uint64_t i = c.from; i < c.to && fine; i++) {
      if (c.record) {
        g_sink.v = sv;
        g_sink.n = 0;
        sv[0] = 0;
      }
      Choices ch(run_seed(c.j, i));
      fine = go(i, ch, i + 1 == c.to || c.record);
    }
  }
  b.u(o.bad);
  b.u(bad_idx);
  b.s(o.cls);
  b.s(o.msg);
  b.u(runs);
  b.u(disc);
  b.u(events);
  b.u(hs.size());
  for (auto& x : hs) {
    b.u(x.first);
    b.u(x.second);
  }
  for (auto* m : {&st.faults, &st.probes, &st.counts}) {
    b.u(m->size());
    for (auto& k : *m) {
      b.s(k.first);
      b.u(k.second);
    }
  }
  b.u(st.states.size());
  for (auto v : st.states) b.u(v);
  b.u(st.sim_time);
  b.u(text.size());
  for (auto& t : text) b.s(t);
  b.u(spans.size());
  for (auto& s : spans) {
    b.u(s.b);
    b.u(s.e);
  }
  b.u(tape.size());
  for (auto v : tape) b.u(v);
  b.u(0x600d);
  spit(out, b.b);
  _exit(0);
}

static pid_t spawn(const ChildSpec& c, const std::string& out) {
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) {
    printf("fork failed\n");
    exit(2);
  }
  if (p == 0) child_main(c, out);
  return p;
}

static void collect(int status, const std::string& out, unsigned slot, ChildResult* r) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    std::string s = slurp(out);
    Unblob u{s};
    r->bad = u.u();
    r->bad_idx = u.u();
    r->cls = u.s();
    r->msg = u.s();
    r->runs = u.u();
    r->discarded = u.u();
    r->events = u.u();
    uint64_t n = u.u();
    for (uint64_t i = 0; i < n && u.ok; i++) {
      uint64_t a = u.u(), h = u.u();
      r->hashes.push_back({a, h});
    }
    for (auto* m : {&r->st.faults, &r->st.probes, &r->st.counts}) {
      n = u.u();
      for (uint64_t i = 0; i < n && u.ok; i++) {
        std::string k = u.s();
        (*m)[k] = u.u();
      }
    }
    n = u.u();
    for (uint64_t i = 0; i < n && u.ok; i++) r->st.states.insert(u.u());
    r->st.sim_time = u.u();
    n = u.u();
    for (uint64_t i = 0; i < n && u.ok; i++) r->text.push_back(u.s());
    n = u.u();
    for (uint64_t i = 0; i < n && u.ok; i++) {
      size_t a = u.u(), e = u.u();
      r->spans.push_back({a, e});
    }
    n = u.u();
    for (uint64_t i = 0; i < n && u.ok; i++) r->tape.push_back(u.u());
    if (u.u() != 0x600d || !u.ok) r->infra = true;
    unlink(out.c_str());
    unlink((out + ".err").c_str());
    return;
  }
  std::string err = slurp(out + ".err");
  unlink((out + ".err").c_str());
  unlink(out.c_str());
  r->bad = true;
  r->bad_idx = g_sh->cur[slot];
  if (WIFEXITED(status)) {
    int e = WEXITSTATUS(status);
    size_t at;
    if (e == 77 && (at = err.find("FATAL ")) != std::string::npos) {
      size_t bar = err.find('|', at), nl = err.find('\n', at);
      r->cls = err.substr(at + 6, bar - at - 6);
      r->msg = err.substr(bar + 1, nl - bar - 1);
      if (r->cls == "infra") {
        r->infra = true;
        r->bad = false;
      }
      return;
    }
    if ((at = err.find("runtime error: ")) != std::string::npos) {
      size_t ls = err.rfind('\n', at), nl = err.find('\n', at);
      ls = ls == std::string::npos ? 0 : ls + 1;
      std::string m = err.substr(at + 15, nl - at - 15);
      std::string k;
      for (char ch : m) {  // without the numbers
        if (isdigit((unsigned char)ch)) continue;
        k += ch;
      }
      r->cls = "ubsan:" + k.substr(0, 40);
      r->msg = err.substr(ls, nl - ls);
      return;
    }
    if ((at = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
      size_t sp = err.find_first_of(" \n", at + 25), nl = err.find('\n', at);
      r->cls = "asan:" + err.substr(at + 25, sp - at - 25);
      r->msg = err.substr(at, nl - at);
      size_t f = err.find("    #0 ");
      if (f != std::string::npos) r->msg += err.substr(f, std::min<size_t>(300, err.size() - f));
      return;
    }
    r->cls = "exit:" + std::to_string(e);
    r->msg = err.substr(0, 400);
    return;
  }
  int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
  if (sig == SIGKILL || sig == SIGTERM || sig == SIGINT) {
    r->infra = true;
    r->bad = false;
    r->msg = "worker killed";
    return;
  }
  r->cls = "signal:" + std::to_string(sig);
  r->msg = strsignal(sig);
}

static ChildResult run_child(const ChildSpec& c) {
  static int n = 0;
  std::string out = g_tmp + "/one." + std::to_string(getpid()) + "." + std::to_string(n++);
  ChildSpec k = c;
  k.slot = 63;
  pid_t p = spawn(k, out);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  ChildResult r;
  collect(st, out, 63, &r);
  return r;
}

// A crash shows up in different ways when it depends on what the memory held.
static bool crash_class(const std::string& c) {
  for (const char* p : {"asan:", "ubsan:", "signal:", "exit:"})
    if (c.compare(0, strlen(p), p) == 0) return true;
  return false;
}
static bool same_class(const std::string& a, const std::string& b) { return a == b || (crash_class(a) && crash_class(b)); }

// ---- minimisation ----
static bool still(const Job& j, const std::vector<uint64_t>& prefix, const std::vector<uint64_t>& t, const std::string& cls) {
  ChildSpec c;
  c.j = j;
  c.use_tape = true;
  c.prefix = prefix;
  c.tape = t;
  ChildResult r = run_child(c);
  return r.bad && same_class(r.cls, cls) && r.bad_idx == UINT64_MAX;
}

static void minimise(const Job& j, std::vector<uint64_t>& prefix, std::vector<uint64_t>& t, std::vector<Choices::Span> spans,
                     const std::string& cls, double budget, uint64_t* tries) {
  double end = now_s() + budget;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (now_s() > end || c == t) return false;
    (*tries)++;
    if (!still(j, prefix, c, cls)) return false;
    t = c;
    return true;
  };
  while (prefix.size() > 0 && now_s() < end) {
    // earlier runs of the same process: drop as many as possible
    bool any = false;
    for (size_t k = prefix.size(); k > 0 && !any; k /= 2)
      for (size_t at = 0; at + k <= prefix.size() && now_s() < end; at += k) {
        auto p2 = prefix;
        p2.erase(p2.begin() + (long)at, p2.begin() + (long)(at + k));
        (*tries)++;
        if (still(j, p2, t, cls)) {
          prefix = p2;
          any = true;
          break;
        }
      }
    if (!any) break;
  }
  // cut the tail
  for (size_t n = t.size(); n > 0 && now_s() < end; n /= 2) {
    while (t.size() > n) {
      auto c = t;
      c.resize(t.size() - n);
      if (!attempt(c)) break;
    }
  }
  // whole spans, biggest first
  std::sort(spans.begin(), spans.end(), [](const Choices::Span& a, const Choices::Span& b) { return a.e - a.b > b.e - b.b; });
  std::vector<std::pair<size_t, size_t>> cut;
  std::vector<uint64_t> orig = t;
  std::vector<char> dead(orig.size(), 0);
  auto build = [&](const std::vector<char>& d) {
    std::vector<uint64_t> c;
    for (size_t i = 0; i < orig.size(); i++)
      if (!d[i]) c.push_back(orig[i]);
    return c;
  };
  for (auto& s : spans) {
    if (now_s() > end) break;
    if (s.b >= orig.size() || s.e <= s.b) continue;
    auto d = dead;
    bool ch = false;
    for (size_t i = s.b; i < std::min(s.e, orig.size()); i++)
      if (!d[i]) {
        d[i] = 1;
        ch = true;
      }
    if (ch && attempt(build(d))) dead = d;
  }
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    for (size_t k = 1; k < t.size(); k *= 2) {}
    for (size_t k = std::max<size_t>(1, t.size() / 2); k >= 1 && now_s() < end; k /= 2) {
      for (size_t at = 0; at < t.size() && now_s() < end;) {
        auto c = t;
        c.erase(c.begin() + (long)at, c.begin() + (long)std::min(at + k, c.size()));
        if (attempt(c)) progress = true;
        else at += k;
      }
      // zero blocks
      for (size_t at = 0; at < t.size() && now_s() < end; at += k) {
        auto c = t;
        for (size_t i = at; i < std::min(at + k, c.size()); i++) c[i] = 0;
        if (attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < t.size() && now_s() < end; i++) {
      while (t[i] > 1 && now_s() < end) {
        auto c = t;
        c[i] /= 2;
        if (!attempt(c)) break;
        progress = true;
      }
    }
    while (!t.empty() && t.back() == 0) t.pop_back();
  }
}

static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    unsigned char u = (unsigned char)ch;
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (u < 32 || u > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", u);
      o += b;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

static const Prop* find_prop(const std::string& id) {
  for (auto& p : props())
    if (id == p.id) return &p;
  return nullptr;
}

static std::string replay_text(const Job& j, const std::vector<uint64_t>& prefix, const std::vector<uint64_t>& tape, const ChildResult& r,
                               uint64_t origin) {
  std::string o = "h265sim-replay 1\n";
  o += std::string("property ") + j.p->id + "\n";
  o += "seed " + std::to_string(j.seed) + "\n";
  o += std::string("tier ") + (j.thorough ? "thorough" : "quick") + "\n";
  o += "found-in-run " + std::to_string(origin) + "\n";
  o += "class " + r.cls + "\n";
  char b[64];
  snprintf(b, sizeof b, "hash %016" PRIx64 "\n", r.hashes.empty() ? 0 : r.hashes.back().second);
  o += b;
  std::string m = r.msg;
  for (auto& ch : m)
    if (ch == '\n') ch = ' ';
  o += "message " + m + "\n";
  o += "prefix";
  for (auto p : prefix) o += " " + std::to_string(p);
  o += "\ntape";
  for (auto v : tape) o += " " + std::to_string(v);
  o += "\ntrace\n";
  for (auto& t : r.text) o += "  " + t + "\n";
  return o;
}

static int do_replay(const std::string& path) {
  std::string s = slurp(path);
  Job j{nullptr, false, 1};
  std::string cls, hash;
  ChildSpec c;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i);
    i = e + 1;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "property") j.p = find_prop(v);
    else if (k == "seed") j.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "tier") j.thorough = v == "thorough";
    else if (k == "class") cls = v;
    else if (k == "hash") hash = v;
    else if (k == "prefix" || k == "tape") {
      const char* q = v.c_str();
      char* en;
      for (;;) {
        uint64_t x = strtoull(q, &en, 10);
        if (en == q) break;
        (k == "prefix" ? c.prefix : c.tape).push_back(x);
        q = en;
      }
    } else if (k == "trace") break;
  }
  if (!j.p) {
    printf("not a replay file: %s\n", path.c_str());
    return 2;
  }
  c.j = j;
  c.use_tape = true;
  c.verbose = true;
  ChildResult r = run_child(c);
  for (auto& t : r.text) printf("  %s\n", t.c_str());
  if (r.infra) return 2;
  if (!r.bad) {
    printf("replay: no violation on this tree\n");
    return 0;
  }
  printf("replay: class %s: %s\n", r.cls.c_str(), r.msg.c_str());
  if (r.cls != cls) printf("replay: the file says class %s\n", cls.c_str());
  printf("VIOLATION property=%s replay=%s\n", j.p->id, path.c_str());
  return 1;
}

struct Known {
  std::string prop, cls, site;
};

static double g_min_s = -1;  // seconds for minimising a violation

static int do_check(const std::string& id, bool thorough, uint64_t seed, const std::string& outjson, const std::string& replay_dir,
                    uint64_t runs_override, double max_s, unsigned workers) {
  double t0 = now_s();
  Job j{find_prop(id), thorough, seed};
  if (!j.p) {
    printf("no such property: %s\n", id.c_str());
    return 2;
  }
  uint64_t runs = runs_override ? runs_override : thorough ? j.p->thorough_runs : j.p->quick_runs;
  uint64_t batch = j.p->batch;
  uint64_t nb = (runs + batch - 1) / batch;
  struct W {
    pid_t pid = 0;
    uint64_t b = 0;
    std::string out;
  };
  std::vector<W> ws(workers);
  uint64_t nextb = 0, done_runs = 0, discarded = 0, events = 0;
  Stats st;
  std::unordered_set<uint64_t> distinct;
  std::map<uint64_t, uint64_t> first_hashes;  // batch -> combined
  ChildResult worst;
  bool have = false;
  uint64_t worst_b = 0;
  bool infra = false;
  std::string infra_msg;
  bool stopped = false;
  for (;;) {
    bool time_up = max_s > 0 && now_s() - t0 > max_s;
    if (time_up) stopped = nextb < nb;
    bool more = nextb < nb && !time_up && !infra && !(have && nextb > worst_b);
    bool busy = false;
    for (unsigned w = 0; w < workers; w++) {
      if (!ws[w].pid && more && nextb < nb) {
        ChildSpec c;
        c.j = j;
        c.from = nextb * batch;
        c.to = std::min(runs, (nextb + 1) * batch);
        c.slot = w;
        ws[w].b = nextb++;
        ws[w].out = g_tmp + "/w" + std::to_string(getpid()) + "." + std::to_string(w);
        ws[w].pid = spawn(c, ws[w].out);
      }
      busy |= ws[w].pid != 0;
    }
    if (!busy) break;
    int status;
    pid_t p = waitpid(-1, &status, 0);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    for (unsigned w = 0; w < workers; w++)
      if (ws[w].pid == p) {
        ws[w].pid = 0;
        ChildResult r;
        collect(status, ws[w].out, w, &r);
        if (r.infra) {
          infra = true;
          infra_msg = r.msg;
        }
        if (r.bad) {
          if (!have || r.bad_idx < worst.bad_idx) {
            worst = r;
            worst_b = ws[w].b;
            have = true;
          }
        }
        done_runs += r.runs;
        discarded += r.discarded;
        events += r.events;
        st.add(r.st);
        uint64_t h = 0;
        for (auto& x : r.hashes) {
          distinct.insert(x.second);
          h = mix(h, x.second);
        }
        if (ws[w].b < 3 || ws[w].b % 97 == 0) first_hashes[ws[w].b] = h;
      }
  }
  if (infra) {
    printf("infrastructure error: %s\n", infra_msg.c_str());
    return 2;
  }
  double search_s = now_s() - t0;
  int rc = 0;
  std::string replay_path, vline;
  uint64_t tries = 0;
  if (have) {
    // reproduce alone, else with the runs before it in the same process
    ChildSpec c;
    c.j = j;
    c.from = worst.bad_idx;
    c.to = worst.bad_idx + 1;
    c.record = true;
    std::vector<uint64_t> prefix;
    ChildResult r = run_child(c);
    bool vague = false;  // depends on memory the simulation does not control: cannot be replayed exactly
    if (!r.bad || !same_class(r.cls, worst.cls)) {
      for (uint64_t i = worst_b * batch; i < worst.bad_idx; i++) prefix.push_back(i);
      c.prefix = prefix;
      r = run_child(c);
      if (!r.bad || r.bad_idx != worst.bad_idx) {
        bool again = false;
        for (int i = 0; i < 4 && !again; i++) {
          ChildSpec d = c;
          if (i % 2 == 0) d.prefix.clear();
          ChildResult q = run_child(d);
          again = q.bad && q.bad_idx == worst.bad_idx && same_class(q.cls, worst.cls);
        }
        if (!again && !crash_class(worst.cls)) {
          printf("not reproducible: run %" PRIu64 " class %s (%s); again: %s (%s)\n", worst.bad_idx, worst.cls.c_str(), worst.msg.c_str(),
                 r.bad ? r.cls.c_str() : "passes", r.msg.c_str());
          return 2;
        }
        vague = true;
        r.cls = worst.cls;
        r.msg = worst.msg;
      }
    }
    std::string cls = r.cls;
    std::vector<uint64_t> tape = r.tape;
    std::vector<Choices::Span> spans = r.spans;
    if (tape.empty()) {  // the process died: the tape is in shared memory
      uint64_t n = g_sink.v[0];
      tape.assign(g_sink.v + 1, g_sink.v + 1 + n);
    }
    size_t full = tape.size();
    if (!vague && !still(j, prefix, tape, cls) && !still(j, prefix, tape, cls)) {
      if (!crash_class(cls)) {
        printf("tape does not replay: run %" PRIu64 " class %s\n", worst.bad_idx, cls.c_str());
        return 2;
      }
      vague = true;
    }
    if (!vague) minimise(j, prefix, tape, spans, cls, g_min_s >= 0 ? g_min_s : thorough ? 120 : 40, &tries);
    // twice more, in fresh processes; both must agree exactly
    c = ChildSpec();
    c.j = j;
    c.use_tape = true;
    c.prefix = prefix;
    c.tape = tape;
    c.verbose = true;
    ChildResult a = run_child(c), b = run_child(c);
    for (int i = 0; i < 6 && (!a.bad || !b.bad || !same_class(a.cls, cls)); i++) {
      std::swap(a, b);
      if (!b.bad || !same_class(b.cls, cls)) b = run_child(c);
    }
    if (!a.bad) {
      if (!vague && !crash_class(cls)) {
        printf("replay differs: %s passes when replayed\n", cls.c_str());
        return 2;
      }
      vague = true;
      a.bad = true;
      a.cls = r.cls;
      a.msg = r.msg;
    } else if (!b.bad || a.cls != b.cls || a.hashes != b.hashes || a.msg != b.msg) {
      vague = true;
    }
    if (vague) printf("note: the violation depends on memory contents outside the simulation's control and varies between replays\n");
    replay_path = replay_dir + "/" + id + (thorough ? ".thorough" : "") + ".replay";
    spit(replay_path, replay_text(j, prefix, tape, a, worst.bad_idx));
    printf("violated in run %" PRIu64 " (seed %" PRIu64 "): %s: %s\n", worst.bad_idx, seed, cls.c_str(), a.msg.c_str());
    printf("minimised from %zu to %zu choices in %" PRIu64 " replays\n", full, tape.size(), tries);
    for (auto& t : a.text) printf("  %s\n", t.c_str());
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay_path.c_str());
    rc = 1;
  } else {
    // determinism: some batches again, in other processes
    unsigned n = 0;
    for (auto& x : first_hashes) {
      if (n >= 4) break;
      ChildSpec c;
      c.j = j;
      c.from = x.first * batch;
      c.to = std::min(runs, (x.first + 1) * batch);
      ChildResult r = run_child(c);
      uint64_t h = 0;
      for (auto& y : r.hashes) h = mix(h, y.second);
      if (r.bad || h != x.second) {
        printf("not deterministic: batch %" PRIu64 " differs when repeated (%s)\n", x.first, r.msg.c_str());
        return 2;
      }
      n++;
    }
    st.counts["batches repeated for determinism"] = n;
  }
  // samples
  std::vector<std::string> samples;
  for (uint64_t i = 0; i < 3 && !have && i < runs; i++) {
    ChildSpec c;
    c.j = j;
    c.from = i;
    c.to = i + 1;
    c.verbose = true;
    ChildResult r = run_child(c);
    std::string t = "run " + std::to_string(i) + ":";
    for (size_t k = 0; k < r.text.size() && k < 14; k++) t += " | " + r.text[k].substr(0, 160);
    samples.push_back(t);
  }
  uint64_t cov = 0;
  for (uint32_t i = 0; i < kCovSize; i++) cov += g_cov[i];
  double wall = now_s() - t0;
  std::string o = "{";
  auto num = [&](const char* k, uint64_t v) { o += json_str(k) + ":" + std::to_string(v) + ","; };
  num("runs", done_runs);
  num("discarded", discarded);
  num("distinct", distinct.size());
  num("events", events);
  num("states", st.states.size());
  num("sim_time_us", st.sim_time);
  num("edges_covered", cov);
  num("edges_total", cov_edges());
  num("planned_runs", runs);
  num("time_limited", stopped);
  num("violations", have);
  num("minimise_tries", tries);
  char b[64];
  snprintf(b, sizeof b, "\"search_s\":%.3f,\"wall_s\":%.3f,", search_s, wall);
  o += b;
  const char* names[] = {"faults", "probes", "counts"};
  const std::map<std::string, uint64_t>* ms[] = {&st.faults, &st.probes, &st.counts};
  for (int k = 0; k < 3; k++) {
    o += std::string("\"") + names[k] + "\":{";
    bool first = true;
    for (auto& x : *ms[k]) {
      if (!first) o += ",";
      first = false;
      o += json_str(x.first) + ":" + std::to_string(x.second);
    }
    o += "},";
  }
  o += "\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) o += (i ? "," : "") + json_str(samples[i]);
  o += "]}\n";
  spit(outjson, o);
  return rc;
}

}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // one address space layout, so that a run repeats exactly
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("H265SIM_NOPERS")) {
    if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) {
      setenv("H265SIM_NOPERS", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> a;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) {
    std::string s = argv[i];
    if (s.substr(0, 2) == "--" && i + 1 < argc) a[s.substr(2)] = argv[++i];
    else pos.push_back(s);
  }
  g_tmp = a.count("tmp") ? a["tmp"] : "/tmp";
  auto abs = [](const std::string& x) {
    char b[PATH_MAX];
    return x.empty() || !realpath(x.c_str(), b) ? x : std::string(b);
  };
  if (a.count("minimise")) g_min_s = atof(a["minimise"].c_str());
  g_cli = abs(a["cli"]);
  g_reader = abs(a["reader"]);
  g_scratch = abs(g_tmp);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_cov = (uint8_t*)mmap(nullptr, kCovSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_sink.cap = 8u << 20;
  g_sink.v = (uint64_t*)mmap(nullptr, g_sink.cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mode == "replay" && pos.size() == 1) return do_replay(pos[0]);
  if (mode == "check" && pos.size() == 2)
    return do_check(pos[0], pos[1] == "thorough", a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1, a["out"], a["replays"],
                    a.count("runs") ? strtoull(a["runs"].c_str(), nullptr, 10) : 0, a.count("time") ? atof(a["time"].c_str()) : 0,
                    a.count("workers") ? (unsigned)atoi(a["workers"].c_str()) : 8);
  if (mode == "list") {
    for (auto& p : props()) printf("%s\n", p.id);
    return 0;
  }
  printf("usage: h265sim check PROP quick|thorough --seed N --out F --replays D --tmp D | replay FILE\n");
  return 2;
}
