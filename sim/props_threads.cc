// C12: threads under a seeded scheduler. The threads are real, exactly one runs
// at a time, and the scheduler decides at every executed control-flow edge of
// library code whether another one runs next.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>

#include <functional>

#include "h265_utils.h"
#include "session.h"

namespace sim {
namespace {

struct Sched {
  Choices* c = nullptr;
  struct T {
    sem_t go;
    bool done = false;
    unsigned hold = 0;   // inside a one-time initialisation: not switched away from
    uint64_t edges = 0;
  };
  std::vector<std::unique_ptr<T>> t;
  sem_t main;
  uint64_t quantum = 0, max_q = 0, switches = 0, max_switches = 0, hash = 0, edges = 0;
  bool active = false;
  bool inside = false;   // the scheduler itself uses the standard library, too
  int cur = -1;
};
Sched* g_s = nullptr;
thread_local int t_id = -1;

void draw_quantum(Sched& s) {
  // 0 on the tape: as long as possible
  uint64_t v = s.switches < s.max_switches ? s.c->below(s.max_q) : 0;
  s.quantum = v ? v : (s.switches < s.max_switches ? s.max_q * 4 + 64 : ~0ull >> 1);
}
int pick(Sched& s, int self) {
  std::vector<int> ok;
  for (int i = 0; i < (int)s.t.size(); i++)
    if (i != self && !s.t[(size_t)i]->done) ok.push_back(i);
  if (ok.empty()) return -1;
  return ok[s.c->below(ok.size())];
}
void switch_to(Sched& s, int next) {
  int self = t_id;
  s.switches++;
  s.hash = mix(s.hash, (uint64_t)next);
  s.cur = next;
  sem_post(&s.t[(size_t)next]->go);
  while (sem_wait(&s.t[(size_t)self]->go)) {}
}
void give_way(Sched& s) {
  s.inside = true;
  int n = pick(s, t_id);
  if (n < 0)
    s.quantum = ~0ull >> 1;
  else
    draw_quantum(s);
  s.inside = false;
  if (n >= 0) switch_to(s, n);
}
void edge(uint32_t guard) {
  Sched* s = g_s;
  if (!s || !s->active || s->inside || t_id < 0) return;
  Sched::T& me = *s->t[(size_t)t_id];
  me.edges++;
  s->edges++;
  if (s->quantum > 0) s->quantum--;
  if (s->quantum || me.hold) return;
  s->hash = mix(s->hash, guard);
  give_way(*s);
}

struct Start {
  Sched* s;
  int id;
  std::function<void()>* fn;
};
void* thread_main(void* p) {
  Start* a = static_cast<Start*>(p);
  Sched& s = *a->s;
  t_id = a->id;
  while (sem_wait(&s.t[(size_t)t_id]->go)) {}
  (*a->fn)();
  s.t[(size_t)t_id]->done = true;
  s.inside = true;
  int n = pick(s, t_id);
  s.hash = mix(s.hash, 0x77 + (uint64_t)(n + 1));
  if (n < 0) {
    s.active = false;
    sem_post(&s.main);
  } else {
    draw_quantum(s);
    s.cur = n;
    s.inside = false;
    t_id = -1;
    sem_post(&s.t[(size_t)n]->go);
  }
  return nullptr;
}

// Runs the jobs to completion, interleaved.
void run_threads(Sched& s, std::vector<std::function<void()>>& jobs) {
  size_t n = jobs.size();
  sem_init(&s.main, 0, 0);
  std::vector<pthread_t> th(n);
  std::vector<Start> st(n);
  for (size_t i = 0; i < n; i++) {
    s.t.push_back(std::make_unique<Sched::T>());
    sem_init(&s.t[i]->go, 0, 0);
  }
  g_s = &s;
  for (size_t i = 0; i < n; i++) {
    st[i] = {&s, (int)i, &jobs[i]};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4u << 20);
    if (pthread_create(&th[i], &at, thread_main, &st[i])) fatal("infra", "pthread_create");
    pthread_attr_destroy(&at);
  }
  g_edge_hook = edge;
  int first = pick(s, -1);
  draw_quantum(s);
  s.cur = first;
  s.active = true;
  sem_post(&s.t[(size_t)first]->go);
  while (sem_wait(&s.main)) {}
  for (size_t i = 0; i < n; i++) pthread_join(th[i], nullptr);
  g_edge_hook = nullptr;
  g_s = nullptr;
  for (auto& x : s.t) sem_destroy(&x->go);
  sem_destroy(&s.main);
}

// What one thread does: an input list prepared beforehand, and what it saw.
struct Op {
  int kind;   // 0 deliver, 1 stream QP, 2 read a shared result, 3 dump a shared result, 4 QP of a shared packet, 5 dump a shared set
  Delivery d;
  Opt opt;
  int indent = -1;
  size_t which = 0;
};
struct Seen {
  uint64_t h;
  std::string what;
};
struct Shared_ {
  std::vector<std::unique_ptr<Result>> res;
  std::unique_ptr<State> st;
};

// What a thread leaves behind: its session and its results.
struct Left {
  std::unique_ptr<State> st;
  std::vector<std::unique_ptr<Result>> held;
};

void run_ops(const std::vector<Op>& ops, const Shared_* sh, std::vector<Seen>* out, Left* left) {
  Left own;
  if (!left) left = &own;
  left->st = std::make_unique<State>();
  State& st = *left->st;
  std::vector<std::unique_ptr<Result>>& held = left->held;
  for (auto& o : ops) {
    uint64_t h = 0;
    std::string w;
    switch (o.kind) {
      case 0: {
        auto q = std::make_unique<Result>();
        size_t n = o.d.buf.size();
        uint8_t* p = static_cast<uint8_t*>(malloc(n ? n : 1));
        if (n) memcpy(p, o.d.buf.data(), n);
        deliver(o.d.car, o.d.width, p, n, &st, o.d.opt, o.d.own_state, q.get());
        free(p);
        h = q->tree().hash();
        if (!q->null()) {
          std::string t = q->dump(o.opt, o.indent);
          h = mix(h, hash_bytes(t.data(), t.size()));
          if (q->rtp) {
            auto v = hn::H265Utils::GetSliceQpY(q->rtp, &st);
            h = mix(h, v ? (uint64_t)(uint32_t)*v + 1 : 0);
          }
        }
        h = mix(h, state_tree(st).hash());
        w = std::string("parse ") + cname(o.d.car);
        held.push_back(std::move(q));
        break;
      }
      case 1: {
        auto v = hn::H265Utils::GetSliceQpY(o.d.buf.data(), o.d.buf.size(), &st);
        for (auto x : v) h = mix(h, (uint64_t)(uint32_t)x);
        w = "stream QP";
        break;
      }
      case 2:
        h = sh->res[o.which]->tree().hash();
        w = "read shared result";
        break;
      case 3: {
        std::string t = sh->res[o.which]->dump(o.opt, o.indent);
        h = hash_bytes(t.data(), t.size());
        w = "dump shared result";
        break;
      }
      case 4:
        if (sh->res[o.which]->rtp) {
          auto v = hn::H265Utils::GetSliceQpY(sh->res[o.which]->rtp, sh->st.get());
          h = v ? (uint64_t)(uint32_t)*v + 1 : 0;
        }
        w = "QP of shared packet";
        break;
      default: {
        char* p = nullptr;
        size_t n = 0;
        FILE* f = open_memstream(&p, &n);
        uint32_t id = (uint32_t)o.which & 3;
        auto a = sh->st->GetVps(id);
        auto b = sh->st->GetSps(id);
        auto c = sh->st->GetPps(id);
        if (a) a->fdump(f, o.indent);
        if (b) b->fdump(f, o.indent, o.opt);
        if (c) c->fdump(f, o.indent);
        fclose(f);
        h = hash_bytes(p, n);
        free(p);
        w = "dump shared sets";
      }
    }
    out->push_back({h, w});
  }
  // earlier results of this session are still what they were
  uint64_t h = 0;
  for (auto& q : held)
    if (q) h = mix(h, q->tree().hash());
  out->push_back({mix(h, state_tree(st).hash()), "retained results"});
}

}  // namespace

void prop_C12(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  size_t n = 2 + c.below(thorough ? 4 : 3);
  std::vector<std::vector<Op>> ops(n);
  bool with_shared = c.chance(600);
  Shared_ sh;
  if (with_shared) {
    SpanGuard g(c);
    Sender s(r, draw_sender_cfg(r));
    sh.st = std::make_unique<State>();
    unsigned k = 2 + (unsigned)c.below(8);
    for (unsigned i = 0; i < k; i++) {
      std::vector<UP> us;
      for (unsigned j = 0, m = 1 + (unsigned)c.below(4); j < m; j++) us.push_back(s.next());
      for (auto& p : packetise(r, &s, us, nals_of(us), draw_pack_cfg(r))) {
        auto q = std::make_unique<Result>();
        deliver(p.d, sh.st.get(), q.get());
        if (!q->null()) sh.res.push_back(std::move(q));
      }
    }
    with_shared = !sh.res.empty();
  }
  // some threads handle the very same input, some their own
  std::vector<Op> twin;
  for (size_t i = 0; i < n; i++) {
    SpanGuard g(c);
    if (i > 0 && c.chance(300)) {
      ops[i] = ops[c.below(i)];
      r.probe("two threads with the same input");
      continue;
    }
    SenderCfg sc = draw_sender_cfg(r);
    Sender s(r, sc);
    unsigned k = 1 + (unsigned)c.below(thorough ? 14 : 6);
    PackCfg pc = draw_pack_cfg(r);
    for (unsigned j = 0; j < k; j++) {
      SpanGuard g2(c);
      if (with_shared && c.chance(450)) {
        Op o;
        o.kind = 2 + (int)c.below(4);
        o.which = c.below(sh.res.size());
        o.opt = draw_opt(c);
        o.indent = (int)c.below(3) - 1;
        ops[i].push_back(o);
        continue;
      }
      std::vector<UP> us;
      for (unsigned q = 0, m = 1 + (unsigned)c.below(5); q < m; q++) us.push_back(s.next());
      if (c.chance(60)) {
        Op o;
        o.kind = 1;
        o.d = pack_annexb(r, us, nals_of(us), true).d;
        ops[i].push_back(o);
        continue;
      }
      for (auto& p : packetise(r, &s, us, nals_of(us), pc)) {
        Op o;
        o.kind = 0;
        o.d = p.d;
        if (c.chance(120)) r.fault(damage(r, o.d.buf));
        o.opt = draw_opt(c);
        o.opt.add_checksum = c.flag();
        o.indent = (int)c.below(3) - 1;
        ops[i].push_back(o);
      }
    }
  }
  static const uint64_t qs[] = {30, 4, 400, 5000};
  Sched s;
  s.c = &c;
  s.max_q = qs[c.below(4)];
  s.max_switches = thorough ? 20000 : 3000;
  std::vector<std::vector<Seen>> seen(n), solo(n);
  std::vector<std::function<void()>> jobs;
  bool handed = c.flag();   // the session and the results outlive their thread
  std::vector<Left> left(n);
  for (size_t i = 0; i < n; i++) jobs.push_back([&, i] { run_ops(ops[i], &sh, &seen[i], handed ? &left[i] : nullptr); });
  // interleaved first: whatever the library sets up on first use happens there
  run_threads(s, jobs);
  r.ev("%zu threads, %" PRIu64 " switches in %" PRIu64 " steps", n, s.switches, s.edges);
  r.evh("schedule", s.hash);
  r.count("thread switches", s.switches);
  r.count("threads", n);
  r.st.sim_time += s.edges;
  r.state(s.hash);
  if (with_shared) r.probe("results shared between threads");
  r.st.faults["thread preempted inside a library call"] += s.switches;
  for (size_t i = 0; i < n && handed; i++) {
    if (i && c.flag()) continue;
    uint64_t h = 0;
    for (auto& q : left[i].held)
      if (q) {
        q->dump(Opt(), -1);
        h = mix(h, q->tree().hash());
      }
    if (mix(h, state_tree(*left[i].st).hash()) != seen[i].back().h)
      r.fail("handed-over", "what thread %zu parsed is not what it was after the thread has ended", i);
    r.probe("results handed over to another thread");
    if (c.flag()) left[i] = Left();
  }
  for (size_t i = 0; i < n; i++) {
    run_ops(ops[i], &sh, &solo[i], nullptr);
    for (size_t k = 0; k < solo[i].size(); k++) {
      r.ev("thread %zu: %s", i, solo[i][k].what.c_str());
      r.evh("saw", seen[i][k].h);
      if (seen[i][k].h != solo[i][k].h)
        r.fail("interference", "thread %zu, operation %zu (%s): the outcome differs from the one it has when run alone", i, k, solo[i][k].what.c_str());
      r.count("operations compared");
    }
  }
}

// One-time initialisation and locks, as seen by scheduled threads.
static int hold_or(int dflt) {
  if (g_s && g_s->active && t_id >= 0) return t_id;
  return dflt;
}
void sched_hold(int d) {
  int i = hold_or(-1);
  if (i >= 0) g_s->t[(size_t)i]->hold += (unsigned)d;
}
// A scheduled thread that cannot get a lock lets the others run.
bool sched_wait() {
  if (hold_or(-1) < 0) return false;
  Sched& s = *g_s;
  bool other = false;
  for (size_t i = 0; i < s.t.size(); i++) other |= (int)i != t_id && !s.t[i]->done;
  if (!other) fatal("deadlock", "every thread waits for a lock");
  if (++s.edges > 2000000000ull) fatal("deadlock", "threads wait for locks without end");
  give_way(s);
  return true;
}

}  // namespace sim

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  while (sim::t_id >= 0) {
    int e = pthread_mutex_trylock(m);
    if (e != EBUSY) return e;
    if (!sim::sched_wait()) break;
  }
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real(m);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  static int (*real)(pthread_once_t*, void (*)(void)) = nullptr;
  if (!real) real = (int (*)(pthread_once_t*, void (*)(void)))dlsym(RTLD_NEXT, "pthread_once");
  sim::sched_hold(1);
  int e = real(o, fn);
  sim::sched_hold(-1);
  return e;
}
int __cxa_guard_acquire(uint64_t* g) {
  static int (*real)(uint64_t*) = nullptr;
  if (!real) real = (int (*)(uint64_t*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  int e = real(g);
  if (e) sim::sched_hold(1);
  return e;
}
void __cxa_guard_release(uint64_t* g) {
  static void (*real)(uint64_t*) = nullptr;
  if (!real) real = (void (*)(uint64_t*))dlsym(RTLD_NEXT, "__cxa_guard_release");
  real(g);
  sim::sched_hold(-1);
}
}
