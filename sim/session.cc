#include "session.h"

namespace sim {

NetCfg draw_net(Run& r, bool faults) {
  Choices& c = r.ch;
  NetCfg n;
  if (!faults || c.chance(150)) return n;
  static const unsigned lv[] = {0, 30, 100, 250};
  n.loss = lv[c.below(4)];
  n.dup = lv[c.below(3)];
  n.corrupt = lv[c.below(4)];
  n.reorder = lv[c.below(4)];
  n.restart = c.chance(400) ? 40 : 0;
  n.truncate = lv[c.below(3)];
  if (c.chance(120)) n.spell = 150;
  return n;
}

void fill_memory(Run& r) {
  g_meter.fill = r.ch.below(1ull << 32) | 1;
  if (r.ch.chance(400)) {
    g_meter.recycle = 1 + (unsigned)r.ch.below(3) * 20;
    r.probe("freed memory handed out again at once");
  }
}

Session::Session(Run& rr, const SessCfg& cfg, const char* name) : r(rr), cfg_(cfg), s(rr, cfg.sc), name_(name) {
  for (unsigned i = 0; i < cfg.receivers; i++) {
    Receiver x;
    x.st = std::make_unique<State>();
    x.name = name_ + ".rx" + std::to_string(i);
    x.sh = std::make_unique<Shadow>(r, &s, cfg.oracles, x.name.c_str());
    rx.push_back(std::move(x));
  }
}

const char* corrupt_packet(Run& r, Packed& p) {
  Choices& c = r.ch;
  Bytes& b = p.d.buf;
  p.damaged = true;
  if (p.d.car == Car::HVCC || (!p.at.empty() && !p.fragment && c.chance(550))) {
    // stay inside one unit, same size
    if (p.at.empty()) return "none";
    size_t i = c.below(p.at.size());
    size_t n = p.d.car == Car::UNESC ? b.size() : p.nals[i].size();
    if (n == 0) return "none";
    size_t k = 1 + c.below(3);
    for (size_t j = 0; j < k; j++) {
      size_t at = p.at[i] + (c.chance(700) ? c.below(std::min<size_t>(n, 24)) : c.below(n));
      if (c.flag())
        b[at] ^= (uint8_t)(1u << c.below(8));
      else
        b[at] = (uint8_t)(c.flag() ? c.below(4) : c.below(256));
    }
    return "unit bytes changed";
  }
  return damage(r, b);
}

void Session::send(const std::vector<UP>& us) {
  Choices& c = r.ch;
  std::vector<Packed> ps = packetise(r, &s, us, nals_of(us), cfg_.pc);
  for (unsigned i = 0; i < rx.size(); i++) {
    for (auto& p : ps) {
      SpanGuard g(c);
      const NetCfg& n = bad_left_ ? bad_ : cfg_.net;
      if (c.chance(n.loss)) {
        r.fault("packet lost");
        r.ev("%s lost %s", rx[i].name.c_str(), cname(p.d.car));
        continue;
      }
      unsigned copies = 1;
      if (c.chance(n.dup)) {
        r.fault("packet duplicated");
        copies = 2;
      }
      for (unsigned k = 0; k < copies; k++) {
        auto q = std::make_shared<Packed>(p);
        if (c.chance(n.corrupt)) {
          const char* kind = corrupt_packet(r, *q);
          r.fault(kind);
        }
        if (c.chance(n.truncate) && q->d.buf.size() > 0) {
          size_t floor = q->d.car == Car::HVCC ? std::min<size_t>(q->d.buf.size(), 23) : 0;
          q->d.buf.resize(floor + c.below(q->d.buf.size() - floor + 1));
          q->damaged = true;
          r.fault("packet cut short");
        }
        uint64_t at = now + n.latency;
        if (c.chance(n.reorder)) {
          at += c.below(n.jitter * 10);
          r.fault("packet delayed");
        }
        q_.push({at, seq_++, i, q});
      }
    }
  }
}

void Session::deliver_to(Receiver& x, const Packed& p) {
  Result res;
  scribble_stack(g_meter.fill);
  if (r.verbose()) {
    std::string s0;
    for (auto& u : p.units) s0 += " " + u->brief();
    r.ev("t=%" PRIu64 "us %s <- %s %zuB%s:%s", now, x.name.c_str(), cname(p.d.car), p.d.buf.size(), p.damaged ? " damaged" : "",
         s0.substr(0, 300).c_str());
  } else {
    // the same event, so that the log hash does not depend on verbosity
    std::string s0;
    for (auto& u : p.units) s0 += " " + u->brief();
    r.ev("t=%" PRIu64 "us %s <- %s %zuB%s:%s", now, x.name.c_str(), cname(p.d.car), p.d.buf.size(), p.damaged ? " damaged" : "",
         s0.substr(0, 300).c_str());
  }
  deliver(p.d, x.st.get(), &res);
  before_judgement();
  r.count("deliveries");
  r.count("bytes", p.d.buf.size());
  r.evh("result", res.tree().hash());
  x.sh->observe(p.d, res, *x.st);
  r.state(mix(x.sh->sets_hash(), hash_bytes(p.d.buf.data(), std::min<size_t>(p.d.buf.size(), 64))));
}

void Session::run_until(uint64_t t) {
  while (!q_.empty() && q_.top().at <= t) {
    Ev e = q_.top();
    q_.pop();
    now = std::max(now, e.at);
    deliver_to(rx[e.rx], *e.p);
  }
  now = std::max(now, t);
}

void Session::drain() {
  while (!q_.empty()) run_until(q_.top().at);
}

void Session::step() {
  SpanGuard g(r.ch);
  Choices& c = r.ch;
  std::vector<UP> us;
  unsigned n = 1 + (unsigned)c.below(cfg_.max_batch);
  for (unsigned i = 0; i < n; i++) us.push_back(s.next());
  if (bad_left_) {
    bad_left_--;
  } else if (c.chance(cfg_.net.spell)) {
    // next to nothing gets through for a while
    bad_ = cfg_.net;
    bad_left_ = 2 + (unsigned)c.below(c.flag() ? 6 : 30);
    switch (c.below(4)) {
      case 0: bad_.corrupt = 900; break;
      case 1: bad_.truncate = 900; break;
      case 2: bad_.loss = 900; break;
      default: bad_.corrupt = bad_.truncate = 600; break;
    }
    r.fault("bad spell");
  }
  send(us);
  for (auto& x : rx)
    if (c.chance(cfg_.net.restart)) {
      // only the bytes on the wire survive a receiver
      r.fault("receiver restarted");
      r.ev("%s restarts", x.name.c_str());
      x.st = std::make_unique<State>();
      x.sh->reset();
      x.lives++;
    }
  run_until(now + 1000 + c.below(30000));
}

void Session::converge() {
  drain();
  stop_faults();
  r.ev("faults stop");
  // a fragmented set is never stored (the library does not reassemble)
  cfg_.pc.w_fu = 0;
  if (cfg_.pc.w_annexb + cfg_.pc.w_len + cfg_.pc.w_unit + cfg_.pc.w_unesc + cfg_.pc.w_single + cfg_.pc.w_ap + cfg_.pc.w_hvcc + cfg_.pc.w_part == 0)
    cfg_.pc.w_single = 1;
  send(s.current_sets());
  drain();
  for (int i = 0; i < 3; i++) {
    std::vector<UP> us{s.make(K::SLICE)};
    send(us);
    drain();
  }
}

}  // namespace sim
