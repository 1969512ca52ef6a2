// C01 .. C06, C08: properties of one receiver's session.
#include "session.h"

namespace sim {

static void finish(Run& r, const Session& s) {
  r.st.sim_time += s.now;
  for (auto& x : s.rx) {
    r.count("intact units", x.sh->intact);
    r.count("damaged units", x.sh->damaged);
    r.count("slices refused for a missing set", x.sh->refused_missing);
  }
}

static void run_sessions(Run& r, unsigned oracles, bool thorough, bool converge_always, void (*tune)(Run&, SessCfg&) = nullptr) {
  Choices& c = r.ch;
  fill_memory(r);
  unsigned n = c.chance(250) ? 2 : 1;
  std::vector<std::unique_ptr<Session>> ss;
  for (unsigned i = 0; i < n; i++) {
    SessCfg cfg;
    cfg.oracles = oracles;
    cfg.sc = draw_sender_cfg(r);
    cfg.pc = draw_pack_cfg(r);
    cfg.net = draw_net(r);
    cfg.receivers = c.chance(200) ? 2 : 1;
    cfg.steps = 4 + (unsigned)c.below(thorough ? 40 : 14);
    if (c.chance(30)) cfg.steps *= 4;
    maybe_giant(r, cfg.sc);
    if (tune) tune(r, cfg);
    ss.push_back(std::make_unique<Session>(r, cfg, i ? "B" : "A"));
  }
  unsigned most = 0;
  for (auto& s : ss) most = std::max(most, s->cfg_.steps);
  for (unsigned k = 0; k < most; k++)
    for (auto& s : ss)
      if (k < s->cfg_.steps) s->step();
  for (auto& s : ss) {
    s->drain();
    if (converge_always || c.chance(300)) s->converge();
    finish(r, *s);
  }
}

void prop_C01(Run& r, bool t) {
  run_sessions(r, O_TREE | O_HDR, t, false);
  if (r.ch.chance(600)) return;
  Encoder e(r.ch, draw_sender_cfg(r).enc);
  for (unsigned i = 0, n = 1 + (unsigned)r.ch.below(3); i < n; i++) part_by_itself(r, e, false, true);
}
// A receiver whose few ids are overwritten thousands of times.
static void churn(Run& r) {
  Choices& c = r.ch;
  fill_memory(r);
  SenderCfg sc = draw_sender_cfg(r);
  sc.enc.id_space = 1 + (unsigned)c.below(3);
  sc.enc.scaling = sc.enc.scaling && c.chance(200);
  Sender s(r, sc);
  struct Set {
    UP u;
    uint64_t tree;
  };
  std::vector<Set> v;
  auto stored = [](const State& st, const Unit& u) -> uint64_t {
    uint32_t id = u.set_id;
    if (u.kind == K::VPS) return st.GetVps(id) ? tree_of(*st.GetVps(id)).hash() : 0;
    if (u.kind == K::SPS) return st.GetSps(id) ? tree_of(*st.GetSps(id)).hash() : 0;
    return st.GetPps(id) ? tree_of(*st.GetPps(id)).hash() : 0;
  };
  unsigned kinds = 3 + (unsigned)c.below(10);
  for (unsigned i = 0; i < kinds; i++) {
    SpanGuard g(c);
    UP u = s.make(i == 0 ? K::SPS : c.chance(600) ? K::PPS : c.flag() ? K::SPS : K::VPS);
    if (u->kind != K::VPS && u->kind != K::SPS && u->kind != K::PPS) continue;
    State alone;
    hn::H265NalUnitParser::ParseNalUnit(u->nal.data(), u->nal.size(), &alone, Opt());
    uint64_t t = stored(alone, *u);
    if (t) v.push_back({u, t});
  }
  if (v.empty()) return;
  unsigned n = c.chance(700) ? 700 : c.chance(800) ? 5000 : 70000;
  uint64_t seed = c.below(1ull << 32);
  State st;
  std::map<std::pair<int, unsigned>, const Set*> now;
  auto check = [&](unsigned i) {
    for (auto& x : now)
      if (stored(st, *x.second->u) != x.second->tree)
        r.fail("churn", "after %u parameter sets, %s %u is not the newest one with that id", i, x.first.first == 0 ? "VPS" : x.first.first == 1 ? "SPS" : "PPS",
               x.first.second);
    if (st.vps.size() + st.sps.size() + st.pps.size() != now.size())
      r.fail("churn", "after %u parameter sets, %zu are stored where %zu ids are in use", i, st.vps.size() + st.sps.size() + st.pps.size(), now.size());
  };
  for (unsigned i = 0; i < n; i++) {
    const Set& x = v[splitmix64(seed) % v.size()];
    hn::H265NalUnitParser::ParseNalUnit(x.u->nal.data(), x.u->nal.size(), &st, Opt());
    now[{x.u->kind == K::VPS ? 0 : x.u->kind == K::SPS ? 1 : 2, x.u->set_id}] = &x;
    if (splitmix64(seed) % 64 == 0 || i + 20 > n) check(i + 1);
  }
  r.ev("%zu parameter sets, %u times", v.size(), n);
  r.evh("state", state_tree(st).hash());
  r.probe("parameter sets replaced very many times");
  r.count("parameter sets in churns", n);
  r.state(mix(state_tree(st).hash(), n));
  r.st.sim_time += n * 100;
}

void prop_C02(Run& r, bool t) {
  if (r.ch.chance(10)) return churn(r);
  run_sessions(r, O_STATE | O_DIFF, t, false, [](Run& rr, SessCfg& c) {
    // parameter sets change often
    c.sc.w_pps += 8;
    c.sc.w_sps += 6;
    c.sc.w_vps += 3;
    c.sc.enc.scaling = rr.ch.chance(100);
    c.sc.enc.vui_permille = rr.ch.chance(300) ? 300 : 0;
    if (rr.ch.chance(30)) {
      // as many sets at once as the tables hold
      static const unsigned strides[] = {1, 63, 5, 27};
      c.sc.enc.id_stride = strides[rr.ch.below(4)];
      c.sc.w_pps = 60;
      c.sc.w_slice = std::min(c.sc.w_slice, 40u);
      c.steps = 50;
      c.max_batch = 6;
      rr.probe("tables filled to the last id");
    }
  });
}

// One delivery of very many units: counts beyond 8 and 16 bits.
static void crowd(Run& r, Car car) {
  Choices& c = r.ch;
  static const size_t sizes[] = {300, 5000, 66000, 70000, 131100};
  size_t n = sizes[c.below(5)] + c.below(300);
  SenderCfg sc = draw_sender_cfg(r);
  Sender s(r, sc);
  // a few small units without parameter sets, each also parsed on its own
  std::vector<Bytes> base;
  std::vector<Rep> alone;
  Opt opt;
  opt.add_checksum = c.flag();
  for (int i = 0; i < 5; i++) {
    Bytes b = i == 3 ? s.make(K::SEI)->nal : s.make(K::AUD)->nal;
    if (i == 4) b = {(uint8_t)((41 + c.below(7)) << 1), 1, (uint8_t)(0x80 | c.below(128))};
    if (i == 3 && b.size() > 60) continue;
    State none;
    auto u = hn::H265NalUnitParser::ParseNalUnit(b.data(), b.size(), &none, opt);
    alone.push_back(rep_of(u.get()));
    base.push_back(b);
  }
  Delivery d;
  d.car = car;
  d.opt = opt;
  d.width = 2 + (unsigned)c.below(3);
  Bytes& b = d.buf;
  uint64_t z = c.below(1ull << 32);
  std::vector<std::pair<uint8_t, size_t>> at;   // which, where
  at.reserve(n);
  auto next = [&] {
    z = z * 6364136223846793005ull + 1442695040888963407ull;
    return (uint32_t)(z >> 33);
  };
  auto add = [&](unsigned w) {
    if (car == Car::ANNEXB) {
      if (next() & 1) b.push_back(0);
      b.insert(b.end(), {0, 0, 1});
    } else {
      for (unsigned k = 0; k < (car == Car::LEN ? d.width : 2); k++)
        b.push_back((uint8_t)(base[w].size() >> (8 * ((car == Car::LEN ? d.width : 2) - 1 - k))));
    }
    at.push_back({(uint8_t)w, b.size()});
    b.insert(b.end(), base[w].begin(), base[w].end());
  };
  if (car == Car::HVCC) {
    b.assign(23, 0);
    b[0] = 1;
    b[13] = 0xf0;
    b[15] = 0xfc;
    b[16] = 0xfc;
    b[17] = 0xf8;
    b[18] = 0xf8;
    b[21] = 3;
    size_t arrays = n > 60000 ? 2 + c.below(254) : 1 + c.below(255);
    b[22] = (uint8_t)arrays;
    for (size_t a = 0; a < arrays; a++) {
      size_t k = n / arrays + (a < n % arrays);
      if (k > 65535) k = 65535;
      unsigned w = next() % base.size();
      b.insert(b.end(), {(uint8_t)nal_type(base[w]), (uint8_t)(k >> 8), (uint8_t)k});
      for (size_t i = 0; i < k; i++) add(w);
    }
  } else {
    if (car == Car::RTP) b = {96, 1};
    for (size_t i = 0; i < n; i++) add(next() % base.size());
  }
  r.probe("very many units in one delivery");
  r.ev("%zu units over %s, %zu bytes", at.size(), cname(car), b.size());
  State st;
  Result res;
  deliver(d, &st, &res);
  auto reps = res.reps();
  r.evh("result", reps.size());
  r.count("units of crowds", at.size());
  r.st.sim_time += at.size() * 100;
  if (reps.size() != at.size()) r.fail("crowd-count", "%zu units sent over %s, %zu reported", at.size(), cname(car), reps.size());
  for (size_t i = 0; i < reps.size(); i++) {
    const Rep &x = reps[i], &want = alone[at[i].first];
    if (x.null || x.hdr.hash() != want.hdr.hash() || x.pay.hash() != want.pay.hash())
      r.fail("crowd-content", "unit %zu of %zu over %s is not reported as on its own", i, at.size(), cname(car));
    if (car == Car::RTP ? x.len != base[at[i].first].size()
                        : x.meta && (car == Car::ANNEXB || car == Car::LEN) && (x.off != at[i].second || x.len != base[at[i].first].size()))
      r.fail("crowd-place", "unit %zu of %zu over %s: %zu bytes at %zu, reported %zu at %zu", i, at.size(), cname(car), base[at[i].first].size(),
             at[i].second, x.len, x.off);
    if (car != Car::RTP && opt.add_checksum && (!x.has_sum || x.sum != want.sum))
      r.fail("crowd-checksum", "unit %zu of %zu over %s: checksum", i, at.size(), cname(car));
  }
}

// C03 ------------------------------------------------------------------
static void check_split(Run& r, const Bytes& b) {
  size_t n = b.size();
  uint8_t* p = static_cast<uint8_t*>(malloc(n));
  if (n) memcpy(p, b.data(), n);
  auto got = hn::H265BitstreamParser::FindNaluIndices(p, n);
  free(p);
  auto want = ref_split(b.data(), n);
  if (got.size() != want.size()) r.fail("index-count", "%zu start codes in %zu bytes, %zu found", want.size(), n, got.size());
  for (size_t i = 0; i < got.size(); i++)
    if (got[i].start_offset != want[i].start || got[i].payload_start_offset != want[i].payload || got[i].payload_size != want[i].size)
      r.fail("index-place", "unit %zu is at start %zu payload %zu+%zu, found at %zu, %zu+%zu", i, want[i].start, want[i].payload,
             want[i].size, got[i].start_offset, got[i].payload_start_offset, got[i].payload_size);
}

void prop_C03(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  if (c.chance(1)) return crowd(r, Car::ANNEXB);
  SessCfg cfg;
  cfg.sc = draw_sender_cfg(r);
  maybe_giant(r, cfg.sc);
  Sender s(r, cfg.sc);
  State st;
  Shadow sh(r, &s, O_FRAME | O_HDR | O_SUM, "rx");
  unsigned bufs = 1 + (unsigned)c.below(thorough ? 12 : 5);
  bool many = c.chance(40);
  bool bad = c.chance(40);   // nearly every unit is damaged
  for (unsigned k = 0; k < bufs; k++) {
    SpanGuard g(c);
    unsigned n = (unsigned)c.below(many ? 200 : bad ? 60 : 8);
    std::vector<UP> us;
    std::vector<Bytes> nals;
    std::vector<bool> hit;
    for (unsigned i = 0; i < n; i++) {
      UP u = many && i > 12 ? s.make(K::AUD) : s.next();
      Bytes b = u->nal;
      bool h = c.chance(bad ? 850 : 200);
      if (h) {
        r.fault(damage(r, b));
        if (c.chance(bad ? 500 : 150)) {
          // an extreme: a tiny or empty unit
          b.resize(std::min<size_t>(b.size(), c.below(3)));
          r.fault("unit cut to almost nothing");
        }
      }
      us.push_back(u);
      nals.push_back(b);
      hit.push_back(h);
    }
    Packed p = pack_annexb(r, us, nals, true);
    p.d.own_state = c.chance(100);
    p.d.opt.add_checksum = c.flag();
    if (c.chance(120) && !p.d.buf.empty()) {
      r.fault("stream buffer cut short");
      p.d.buf.resize(c.below(p.d.buf.size() + 1));
    }
    const size_t sent = p.d.buf.size();
    if (c.chance(60)) {
      r.fault("stray bytes appended");
      unsigned m = (unsigned)c.below(6);
      for (unsigned i = 0; i < m; i++) p.d.buf.push_back((uint8_t)c.below(3));
    }
    r.ev("stream of %zu bytes, %u units", p.d.buf.size(), n);
    if (p.d.buf.size() <= 200) r.ev("%s", hex(p.d.buf, 200).c_str());
    check_split(r, p.d.buf);
    // every undamaged unit that is wholly there must be found where it is
    auto idx = ref_split(p.d.buf.data(), p.d.buf.size());
    for (size_t i = 0; i < nals.size(); i++) {
      if (hit[i] || p.at[i] + nals[i].size() > sent) continue;
      bool found = false;
      for (auto& x : idx) found |= x.payload == p.at[i];
      if (!found) r.fail("reference", "internal: the reference splitter lost a unit");
    }
    Result res;
    scribble_stack(g_meter.fill);
    deliver(p.d, &st, &res);
    r.evh("result", res.tree().hash());
    sh.observe(p.d, res, st);
    // undamaged units: exact length, too, unless the next start code has been eaten
    auto reps = res.reps();
    for (size_t i = 0; i < nals.size(); i++) {
      if (hit[i] || p.at[i] + nals[i].size() > sent) continue;
      if (p.at[i] + nals[i].size() == p.d.buf.size() || i + 1 < nals.size()) {
        int seen = 0;
        for (auto& x : reps)
          if (x.off == p.at[i]) {
            seen++;
            bool last = true;  // the next start code may be part of this unit if nothing follows it
            for (auto& y : idx) last &= !(i + 1 < nals.size() && y.payload == p.at[i + 1]);
            if (x.len != nals[i].size() && !last)
              r.fail("length", "unit at %zu has %zu bytes, reported %zu", p.at[i], nals[i].size(), x.len);
          }
        if (seen != 1) r.fail("once", "undamaged unit %zu at offset %zu is reported %d times", i, p.at[i], seen);
      }
    }
    r.count("deliveries");
    r.count("units", n);
    r.state(mix(n, hash_bytes(p.d.buf.data(), p.d.buf.size())));
    r.st.sim_time += 1000;
  }
}

// C04 ------------------------------------------------------------------
void prop_C04(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  if (c.chance(1)) return crowd(r, Car::LEN);
  SessCfg cfg;
  cfg.sc = draw_sender_cfg(r);
  maybe_giant(r, cfg.sc);
  Sender s(r, cfg.sc);
  State st;
  Shadow sh(r, &s, O_FRAME | O_HDR | O_SUM | O_TREE, "rx");
  unsigned bufs = 1 + (unsigned)c.below(thorough ? 12 : 5);
  bool many = c.chance(40);
  bool bad = c.chance(40);   // nearly every unit is damaged
  for (unsigned k = 0; k < bufs; k++) {
    SpanGuard g(c);
    unsigned n = (unsigned)c.below(many ? 200 : bad ? 60 : 8);
    static const unsigned ws[] = {4, 2, 8, 1, 4, 3, 0, 5, 16};
    unsigned width = ws[c.below(9)];
    size_t cap = width == 1 ? 255 : width == 2 ? 65535 : SIZE_MAX;
    std::vector<UP> us;
    std::vector<Bytes> nals;
    if (width == 0) n = std::min(n, 1u);
    for (unsigned i = 0; i < n; i++) {
      UP u = many && i > 12 ? s.make(K::AUD) : s.next();
      Bytes b = u->nal;
      if (c.chance(bad ? 700 : 150)) r.fault(damage(r, b));
      if (c.chance(bad ? 500 : 40)) {
        b.resize(std::min<size_t>(b.size(), c.below(3)));
        r.fault("unit cut to almost nothing");
      }
      if (b.size() > cap) b.resize(cap);
      if (b.empty() && width) b.push_back(0x44);
      us.push_back(u);
      nals.push_back(b);
    }
    Packed p = pack_len(r, us, nals, width);
    Bytes& b = p.d.buf;
    p.d.own_state = c.chance(100);
    if (c.chance(250) && !b.empty()) {
      r.fault("buffer cut short");
      b.resize(c.below(b.size() + 1));
    }
    if (c.chance(300) && width && !p.at.empty()) {
      size_t i = c.below(p.at.size());
      size_t at = p.at[i] - width;
      if (p.at[i] <= b.size()) {
        // a wrong length field: zero, off by a few, huge, or overflowing
        uint64_t left = b.size() - p.at[i], v = 0;
        const uint64_t was = std::min<uint64_t>(nals[i].size(), left);
        switch (c.below(9)) {
          case 6: v = was ^ 1ull << c.below(8 * std::min(width, 8u)); break;
          case 7: v = was + (1 + c.below(200) << 8 * c.below(std::min(width, 8u))); break;
          case 8: v = c.below(left + 1) | (1 + c.below(UINT32_MAX)) << (width > 4 ? 32 : width > 2 ? 16 : 8); break;
          case 0: v = 0; break;
          case 1: v = left + 1 + c.below(3); break;
          case 2: v = left; break;
          case 3: v = UINT64_MAX - c.below(70); break;
          case 4: v = left - std::min<uint64_t>(left, c.below(4)); break;
          default: v = c.below(UINT64_MAX);
        }
        for (unsigned q = width; q-- > 0; v >>= 8) b[at + q] = (uint8_t)v;
        r.fault("length field changed");
      }
    }
    r.ev("length-prefixed (%u) buffer of %zu bytes, %u units", width, b.size(), n);
    Result res;
    scribble_stack(g_meter.fill);
    deliver(p.d, &st, &res);
    r.evh("result", res.tree().hash());
    if (p.d.own_state) {
      // the overload with its own state knows no earlier sets
      Shadow tmp(r, &s, O_FRAME | O_HDR | O_SUM, "own-state");
      State none;
      tmp.observe(p.d, res, none);
    } else {
      sh.observe(p.d, res, st);
    }
    if (width == 4) {
      // explicit framing index
      uint8_t* q = static_cast<uint8_t*>(malloc(b.size()));
      if (!b.empty()) memcpy(q, b.data(), b.size());
      auto got = hn::H265BitstreamParser::FindNaluIndicesExplicitFraming(q, b.size());
      free(q);
      size_t i = 0, m = 0;
      while (b.size() - i >= 4) {
        uint64_t len = (uint64_t)b[i] << 24 | (uint64_t)b[i + 1] << 16 | (uint64_t)b[i + 2] << 8 | b[i + 3];
        if (len > b.size() - i - 4) break;
        if (m >= got.size()) r.fail("index-count", "unit %zu at %zu is not indexed", m, i);
        if (got[m].start_offset != i || got[m].payload_start_offset != i + 4 || got[m].payload_size != len)
          r.fail("index-place", "unit %zu at %zu+%zu indexed at %zu, %zu+%zu", m, i, (size_t)len, got[m].start_offset,
                 got[m].payload_start_offset, got[m].payload_size);
        m++;
        i += 4 + (size_t)len;
      }
      if (got.size() != m) r.fail("index-count", "%zu units indexed, %zu are there", got.size(), m);
    }
    r.count("deliveries");
    r.count("units", n);
    r.state(mix(width, hash_bytes(b.data(), b.size())));
    r.st.sim_time += 1000;
  }
}

// C05 ------------------------------------------------------------------
void prop_C05(Run& r, bool t) {
  if (r.ch.chance(4)) return crowd(r, Car::RTP);
  run_sessions(r, O_TREE | O_HDR | O_TOP | O_DIFF | O_STATE, t, false, [](Run& rr, SessCfg& c) {
    PackCfg p;
    p.w_annexb = p.w_len = p.w_unit = p.w_unesc = p.w_hvcc = 0;
    p.w_single = 2 + (unsigned)rr.ch.below(3);
    p.w_ap = 2 + (unsigned)rr.ch.below(4);
    p.w_fu = 1 + (unsigned)rr.ch.below(4);
    c.pc = p;
  });
}

// C06 ------------------------------------------------------------------
void prop_C06(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  if (c.chance(2)) return crowd(r, Car::HVCC);
  SenderCfg sc = draw_sender_cfg(r);
  Sender s(r, sc);
  // receiver A gets records, receiver B the same units in band
  State a, b;
  Shadow sa(r, &s, O_TREE | O_HDR | O_SUM | O_PLEN | O_STATE | O_DIFF, "record"), sb(r, &s, 0, "in-band");
  unsigned rounds = 1 + (unsigned)c.below(thorough ? 6 : 3);
  for (unsigned k = 0; k < rounds; k++) {
    SpanGuard g(c);
    std::vector<UP> us;
    unsigned n = (unsigned)c.below(10);
    for (unsigned i = 0; i < n; i++) {
      UP u;
      switch (c.below(6)) {
        case 0: u = s.make(K::VPS); break;
        case 1: u = s.make(K::SPS); break;
        case 2: case 3: u = s.make(K::PPS); break;
        case 4: u = s.make(K::SEI); break;
        default: u = s.next();
      }
      if (u->nal.size() <= 65535) us.push_back(u);
    }
    bool many = c.chance(40);
    if (many) {
      // more units than an eight-bit count holds: small ones, a few made, each sent many times
      std::vector<UP> few;
      for (int i = 0; i < 3; i++) {
        UP u = i == 0 ? s.make(K::AUD) : i == 1 ? s.make(K::SEI) : s.next();
        if (u->nal.size() < 40) few.push_back(u);
      }
      if (few.empty()) few.push_back(s.make(K::AUD));
      unsigned m = 250 + (unsigned)c.below(c.flag() ? 12 : 400);
      size_t at = c.below(us.size() + 1);
      std::vector<UP> mm;
      for (unsigned i = 0; i < m; i++) mm.push_back(few[c.below(few.size())]);
      us.insert(us.begin() + (long)at, mm.begin(), mm.end());
      r.probe("record with hundreds of units");
    }
    std::vector<Bytes> nals = nals_of(us);
    for (auto& x : nals)
      if (c.chance(many ? 2 : 80)) {
        r.fault(damage(r, x));
        if (c.chance(200)) x.resize(std::min<size_t>(x.size(), c.below(3)));
      }
    Packed p = pack_hvcc(r, us, nals);
    bool cut = c.chance(300);
    if (cut) {
      p.d.buf.resize(c.below(p.d.buf.size()));
      r.fault("record cut short");
    } else if (c.chance(60)) {
      p.d.buf[0] = (uint8_t)(c.flag() ? 0 : 2 + c.below(254));
      r.fault("record version changed");
      cut = true;
    }
    r.ev("record of %zu bytes, %zu units%s", p.d.buf.size(), us.size(), cut ? ", damaged" : "");
    Result res;
    scribble_stack(g_meter.fill);
    uint64_t before = state_tree(a).hash();
    deliver(p.d, &a, &res);
    r.evh("result", res.tree().hash());
    if (p.d.buf.size() >= 1 && p.d.buf[0] != 1) {
      if (!res.null()) r.fail("version", "record with version %u accepted", p.d.buf[0]);
      if (state_tree(a).hash() != before) r.fail("version-state", "a record with the wrong version changed the stored sets");
    } else {
      // refused at the damage, units before it may have had an effect
      sa.observe(p.d, res, a);
      if (cut && !res.null()) r.fail("truncated", "record cut at %zu bytes accepted", p.d.buf.size());
      if (!res.null()) {
        std::string why;
        Node t = res.tree();
        if (!match(p.expect_top, *t.get("hvcc"), "hvcc", &why)) r.fail("record-fields", "%s", why.c_str());
      }
    }
    if (cut) {
      // in band, only what the record delivered: follow the reference receiver
      b.vps.clear();
      b.sps.clear();
      b.pps.clear();
      sb.vps = sa.vps;
      sb.sps = sa.sps;
      sb.pps = sa.pps;
      sb.feed_sets(&b, c.below(1000));
    } else {
      auto reps = res.reps();
      for (size_t i = 0; i < nals.size(); i++) {
        Delivery d;
        d.car = Car::UNIT;
        d.buf = nals[i];
        d.opt = p.d.opt;
        Result q;
        deliver(d, &b, &q);
        std::string why;
        auto rr = q.reps();
        if (rr.empty() != reps[i].null) r.fail("in-band", "unit %zu: record and in-band delivery differ in reporting it", i);
        if (rr.empty()) continue;
        if (!same(rr[0].pay, reps[i].pay, "", &why) || !same(rr[0].hdr, reps[i].hdr, "hdr", &why))
          r.fail("in-band", "unit %zu: in-band and record reports differ: %s", i, why.c_str());
        if (rr[0].plen != reps[i].plen || rr[0].sum != reps[i].sum)
          r.fail("in-band-meta", "unit %zu: parsed length %zu/%zu checksum %s/%s", i, rr[0].plen, reps[i].plen, rr[0].sum.c_str(),
                 reps[i].sum.c_str());
      }
    }
    std::string why;
    if (!same(state_tree(b), state_tree(a), "state", &why)) r.fail("state", "in-band and record state differ: %s", why.c_str());
    // later samples
    unsigned m = (unsigned)c.below(5);
    for (unsigned i = 0; i < m; i++) {
      UP u = s.next();
      Delivery d;
      d.car = Car::LEN;
      d.width = 4;
      d.opt = draw_opt(c);
      for (int q = 3; q >= 0; q--) d.buf.push_back((uint8_t)(u->nal.size() >> (8 * q)));
      d.buf.insert(d.buf.end(), u->nal.begin(), u->nal.end());
      Result ra, rb;
      deliver(d, &a, &ra);
      deliver(d, &b, &rb);
      sa.observe(d, ra, a);
      if (!same(rb.tree(), ra.tree(), "sample", &why)) r.fail("sample", "%s: %s", u->brief().c_str(), why.c_str());
      r.count("samples");
    }
    r.count("records");
    r.state(mix(sa.sets_hash(), us.size()));
    r.st.sim_time += 40000;
  }
}

// C08 ------------------------------------------------------------------
namespace {
class Repeating : public Session {
 public:
  using Session::Session;
  std::unique_ptr<Sender> other;
  State other_state;
  // another session in the same process, of another sender
  void meanwhile() {
    Choices& c = r.ch;
    SpanGuard g(c);
    if (!other) {
      SenderCfg k = cfg_.sc;
      other = std::make_unique<Sender>(r, k);
    }
    unsigned n = 1 + (unsigned)c.below(3);
    for (unsigned i = 0; i < n; i++) {
      UP u = c.chance(300) ? other->next() : other->make(K::SLICE);
      Delivery d;
      d.car = Car::UNIT;
      d.buf = u->nal;
      Result q;
      deliver(d, &other_state, &q);
      r.evh("other session", q.tree().hash());
    }
    r.probe("other session between delivery and comparison");
  }
  void before_judgement() override {
    if (r.ch.chance(100)) meanwhile();
  }
  void deliver_to(Receiver& x, const Packed& p) override {
    Choices& c = r.ch;
    if (c.chance(50)) meanwhile();
    Session::deliver_to(x, p);
    if (c.chance(150)) {
      // the same call again, on the state it left behind
      Result a, b;
      uint64_t keep = g_meter.fill;
      scribble_stack(keep * 3 + 1);
      deliver(p.d, x.st.get(), &a);
      uint64_t h1 = state_tree(*x.st).hash();
      g_meter.fill = keep * 0x9e3779b97f4a7c15ull | 1;
      scribble_stack(g_meter.fill);
      deliver(p.d, x.st.get(), &b);
      g_meter.fill = keep;
      std::string why;
      if (!same(a.tree(), b.tree(), "report", &why)) r.fail("repeat", "%s: the same call twice: %s", x.name.c_str(), why.c_str());
      if (h1 != state_tree(*x.st).hash()) r.fail("repeat-state", "%s: the same call twice leaves different states", x.name.c_str());
      // follow the reference receiver
      x.sh->observe(p.d, b, *x.st);
      r.probe("call repeated");
    }
  }
};

// n units that change nothing: the stored sets again, and others
void grow_old(Run& r, Session& s, Receiver& x, unsigned n) {
  uint64_t seed = r.ch.below(1ull << 32);
  std::vector<const Bytes*> v;
  for (auto& u : s.s.all)
    if (!(u->type >= 32 && u->type <= 34) && u->raw.size() < 100) v.push_back(&u->raw);
  std::vector<Bytes> sets;
  for (auto* m : {&x.sh->vps, &x.sh->sps, &x.sh->pps})
    for (auto& y : *m) sets.push_back(y.second.raw);
  for (auto& b : sets) v.push_back(&b);
  if (v.empty()) return;
  Opt o;
  for (unsigned i = 0; i < n; i++) {
    const Bytes& b = *v[splitmix64(seed) % v.size()];
    hn::H265NalUnitParser::ParseNalUnitUnescaped(b.data(), b.size(), x.st.get(), o);
  }
  r.ev("%s parses %u more units", x.name.c_str(), n);
  r.probe("receiver of old age");
  r.count("units of old receivers", n);
  x.sh->check_state(*x.st, "after many more units");
}
}  // namespace

void prop_C08(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SessCfg cfg;
  cfg.oracles = O_FRESH | O_STATE | O_PRISTINE;
  cfg.sc = draw_sender_cfg(r);
  if (c.flag()) cfg.sc.near_permille = 600;
  cfg.pc = draw_pack_cfg(r);
  cfg.net = draw_net(r);
  cfg.net.corrupt += 80;
  cfg.receivers = 1 + (unsigned)c.below(2);
  cfg.steps = 3 + (unsigned)c.below(thorough ? 30 : 9);
  Repeating s(r, cfg, "A");
  // now and then a receiver that has been running for days
  unsigned old = c.chance(12) ? 1 + (unsigned)c.below(cfg.steps) : 0;
  for (unsigned i = 0; i < cfg.steps; i++) {
    s.step();
    if (i + 1 == old) {
      unsigned n = c.chance(600) ? 400 : c.chance(800) ? 5000 : 70000;
      for (auto& x : s.rx) grow_old(r, s, x, n);
    }
  }
  s.converge();
  // after the repetition of the sets: a receiver that never saw a fault
  Delivery d;
  d.car = Car::UNIT;
  State clean;
  for (auto& u : s.s.current_sets()) {
    d.buf = u->nal;
    Result q;
    deliver(d, &clean, &q);
  }
  for (int i = 0; i < 4; i++) {
    UP u = s.s.make(i == 3 ? K::SEI : K::SLICE);
    if (u->kind == K::VPS || u->kind == K::SPS || u->kind == K::PPS) continue;
    d.buf = u->nal;
    d.opt = draw_opt(c);
    // with leftovers of damaged sets under ids the sender does not use, only
    // the sender's own units have to come out the same
    bool equal = true;
    for (auto& x : s.rx) equal &= state_tree(*x.st).hash() == state_tree(clean).hash();
    if (equal && c.chance(300)) r.fault(damage(r, d.buf));
    // a damaged unit may have become a parameter set: only use others here
    if (d.buf.size() < 2 || (nal_type(d.buf) >= 32 && nal_type(d.buf) <= 34)) continue;
    Result ref;
    deliver(d, &clean, &ref);
    // sets under other ids may linger in a receiver with a past: only units that
    // refer to current sets are comparable
    auto rr = ref.reps();
    const Node* sl = rr.empty() ? nullptr : rr[0].pay.get("slice_segment_layer");
    if (is_slice_type(nal_type(d.buf)) && (!sl || sl->null())) continue;
    for (auto& x : s.rx) {
      Result q;
      deliver(d, x.st.get(), &q);
      std::string why;
      if (!same(ref.tree(), q.tree(), "report", &why))
        r.fail("no-convergence", "%s: after faults stopped and the sets were repeated: %s: %s", x.name.c_str(), u->brief().c_str(), why.c_str());
    }
    r.probe("converged receiver compared");
  }
  for (auto& x : s.rx) x.sh->ask_new_process();
  finish(r, s);
}

}  // namespace sim
