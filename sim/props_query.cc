// C15: the slice QP query over streams and RTP packets.
#include "session.h"

namespace sim {

namespace {

// What a receiver's parameter sets are, kept by feeding it one unit at a time.
struct Twin {
  State st;
  std::map<uint32_t, Bytes> sps, pps;   // bytes of the accepted sets
  unsigned lives = 1;

  struct Seen {
    bool slice = false, dependent = false, valued = false;
    int32_t value = 0;
    bool exact = false;     // intact, and its sets are the ones it was coded with
    UP unit;
  };
  // `known`: the unit sent, where that is known; equal bytes may have been coded twice
  Seen feed(const RU& u, Sender* s, UP known = nullptr) {
    Seen out;
    if (!u.report || u.fu_rest || u.raw.size() < 2) return out;
    unsigned t = nal_type(u.raw);
    auto sps0 = st.sps;
    auto pps0 = st.pps;
    Opt o;
    auto nu = hn::H265NalUnitParser::ParseNalUnitUnescaped(u.raw.data(), u.raw.size(), &st, o);
    for (auto& x : st.sps)
      if (!sps0.count(x.first) || sps0[x.first] != x.second) sps[x.first] = u.raw;
    for (auto& x : st.pps)
      if (!pps0.count(x.first) || pps0[x.first] != x.second) pps[x.first] = u.raw;
    if (!nu || !is_slice_type(t) || !nu->nal_unit_payload || !nu->nal_unit_payload->slice_segment_layer ||
        !nu->nal_unit_payload->slice_segment_layer->slice_segment_header)
      return out;
    auto& h = *nu->nal_unit_payload->slice_segment_layer->slice_segment_header;
    auto p = st.GetPps(h.slice_pic_parameter_set_id);
    if (!p) return out;
    out.slice = true;
    out.dependent = h.dependent_slice_segment_flag;
    int64_t v = 26 + (int64_t)(int32_t)p->init_qp_minus26 + (int64_t)(int32_t)h.slice_qp_delta;
    out.valued = v >= INT32_MIN && v <= INT32_MAX;
    out.value = (int32_t)v;
    out.unit = known ? known : s->lookup(u.raw);
    if (!out.unit && u.fu) out.unit = s->lookup_fragment(u.raw);
    if (out.unit && out.unit->kind == K::SLICE && !out.unit->dependent) {
      auto pu = s->by_uid(out.unit->pps_uid), su = s->by_uid(out.unit->sps_uid);
      if (pu && su && pps.count(out.unit->pps_id) && pps[out.unit->pps_id] == pu->raw && sps.count(pu->pps->sps_id) &&
          sps[pu->pps->sps_id] == su->raw) {
        out.exact = true;
        out.valued = true;
        out.value = 26 + pu->pps->init_qp + out.unit->qp_delta;
      }
    }
    return out;
  }
};

class QpSession : public Session {
 public:
  QpSession(Run& rr, const SessCfg& cfg, unsigned p_query) : Session(rr, cfg, "Q"), p_query_(p_query) {
    for (size_t i = 0; i < rx.size(); i++) twins_.push_back(std::make_unique<Twin>());
  }

  void deliver_to(Receiver& x, const Packed& p) override {
    Choices& c = r.ch;
    size_t i = (size_t)(&x - &rx[0]);
    if (twins_[i]->lives != x.lives) {
      twins_[i] = std::make_unique<Twin>();
      twins_[i]->lives = x.lives;
    }
    Twin& t = *twins_[i];
    std::string s0;
    for (auto& u : p.units) s0 += " " + u->brief();
    bool query = p.d.car == Car::ANNEXB && c.chance(p_query_);
    r.ev("t=%" PRIu64 "us %s %s %s %zuB%s:%s", now, x.name.c_str(), query ? "queries" : "<-", cname(p.d.car), p.d.buf.size(),
         p.damaged ? " damaged" : "", s0.substr(0, 300).c_str());
    RefFrame f = ref_frame(p.d);
    std::vector<Twin::Seen> seen;
    scribble_stack(g_meter.fill);
    if (query) {
      for (auto& u : f.units) seen.push_back(t.feed(u, &s));
      query_stream(p.d.buf, x.st.get(), seen);
      r.count("stream queries");
    } else {
      if (f.refused) {
        // which of its sets a refused packet left behind is C05's and C06's business
        bool sets = false;
        for (auto& u : f.units) sets |= u.raw.size() >= 2 && nal_type(u.raw) >= 32 && nal_type(u.raw) <= 34;
        Result res;
        deliver(p.d, x.st.get(), &res);
        if (sets) {
          r.ev("%s restarts after a refused packet with parameter sets", x.name.c_str());
          x.st = std::make_unique<State>();
          x.lives++;
        }
        if (res.rtp) r.fail("reported", "a packet without complete framing was reported");
        return;
      }
      if (p.d.own_state) return;
      for (auto& u : f.units) seen.push_back(t.feed(u, &s));
      Result res;
      deliver(p.d, x.st.get(), &res);
      if (res.rtp) {
        r.count("packet queries");
        auto qp = hn::H265Utils::GetSliceQpY(res.rtp, x.st.get());
        Twin::Seen want;
        if (!seen.empty()) want = seen.back();
        r.ev("packet: %s", qp ? std::to_string(*qp).c_str() : "none");
        check(want, qp != nullptr, qp ? *qp : 0, "packet");
        if (c.chance(200)) {
          auto again = hn::H265Utils::GetSliceQpY(res.rtp, x.st.get());
          if ((again != nullptr) != (qp != nullptr) || (qp && *again != *qp)) r.fail("repeat", "the same query gave another answer");
        }
      }
    }
    r.count("deliveries");
    r.count("bytes", p.d.buf.size());
    std::string why;
    if (c.chance(query ? 350 : 60) && !same(state_tree(t.st), state_tree(*x.st), "state", &why))
      r.fail("state", "after %s the parameter sets are not those of parsing the same units: %s", query ? "a stream query" : "a delivery",
             why.c_str());
    uint64_t h = 7;
    for (auto& y : t.pps) h = mix(h, mix(y.first, hash_bytes(y.second.data(), y.second.size())));
    r.state(mix(h, hash_bytes(p.d.buf.data(), std::min<size_t>(p.d.buf.size(), 64))));
  }

  void query_stream(const Bytes& buf, State* st, const std::vector<Twin::Seen>& seen) {
    auto* q = new uint8_t[buf.size() ? buf.size() : 1];
    std::unique_ptr<uint8_t[]> hold(q);
    if (buf.size()) memcpy(q, buf.data(), buf.size());
    auto got = hn::H265Utils::GetSliceQpY(q, buf.size(), st);
    if (buf.size() && memcmp(q, buf.data(), buf.size())) r.fail("input", "the query changed its input");
    std::string line;
    for (size_t i = 0; i < got.size() && i < 20; i++) line += " " + std::to_string(got[i]);
    r.ev("stream: %zu values%s", got.size(), line.c_str());
    size_t k = 0;
    for (auto& w : seen) {
      if (!w.slice || !w.valued) {
        if (w.slice) r.probe("QP outside of 32 bits");
        continue;
      }
      if (k >= got.size())
        r.fail("missing", "%zu values for a stream with at least %zu decodable slices", got.size(), k + 1);
      check(w, true, got[k], "stream");
      k++;
    }
    if (k != got.size()) r.fail("extra", "%zu values for a stream with %zu decodable slices", got.size(), k);
  }

  void check(const Twin::Seen& w, bool has, int32_t v, const char* what) {
    if (!w.slice || !w.valued) {
      if (has) r.fail("extra", "%s query gave %d for a unit without a decodable slice start", what, v);
      return;
    }
    if (!has) r.fail("missing", "%s query gave nothing for %s", what, w.unit ? w.unit->brief().c_str() : "a decodable slice");
    if (w.dependent) {
      r.probe("dependent slice segment");
      return;
    }
    if (v != w.value)
      r.fail("value", "%s query gave %d instead of %d for %s", what, v, w.value, w.unit ? w.unit->brief().c_str() : "a damaged but decodable slice");
    r.count(w.exact ? "values of intact slices" : "values of other decodable slices");
    if (w.exact && w.unit && w.unit->qp_delta && w.value != 26 + w.unit->qp_delta) r.probe("both PPS and slice move the QP");
  }

 private:
  unsigned p_query_;
  std::vector<std::unique_ptr<Twin>> twins_;
};

}  // namespace

void prop_C15(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SessCfg cfg;
  cfg.sc = draw_sender_cfg(r);
  if (c.chance(600)) cfg.sc.w_pps += 10 + (unsigned)c.below(30);
  cfg.pc = draw_pack_cfg(r);
  cfg.pc.w_annexb += 4;
  cfg.pc.w_fu += c.flag();
  cfg.net = draw_net(r);
  cfg.receivers = 1 + (unsigned)c.below(2);
  cfg.steps = 3 + (unsigned)c.below(thorough ? 40 : 14);
  cfg.max_batch = 2 + (unsigned)c.below(8);
  QpSession s(r, cfg, (unsigned)c.range(300, 1000));
  for (unsigned i = 0; i < cfg.steps; i++) s.step();
  s.converge();
  // once faults have stopped: everything in one buffer, on a receiver with no past
  std::vector<UP> us = s.s.current_sets();
  unsigned n = 1 + (unsigned)c.below(6);
  for (unsigned i = 0; i < n; i++) us.push_back(s.s.make(c.chance(250) ? K::PPS : K::SLICE));
  Packed p = pack_annexb(r, us, nals_of(us), false);
  Twin t;
  std::vector<Twin::Seen> seen;
  unsigned exact = 0, want = 0;
  RefFrame f = ref_frame(p.d);
  for (size_t i = 0; i < f.units.size(); i++) {
    seen.push_back(t.feed(f.units[i], &s.s, f.units.size() == us.size() ? us[i] : nullptr));
    exact += seen.back().exact;
  }
  for (auto& u : us) want += u->kind == K::SLICE && !u->dependent && u->sps_uid >= 0;
  State st;
  s.query_stream(p.d.buf, &st, seen);
  if (exact != want) r.fail("converged", "%u of %u intact slices were decodable although all parameter sets are in the same buffer", exact, want);
  r.count("values of intact slices", 0);
  r.st.sim_time += s.now;
}

}  // namespace sim
