// C09, C10, C11: retained results, hostile input, bounded work.
#include <sanitizer/allocator_interface.h>
#include <stdlib.h>

#include <algorithm>

#include "h265_aud_parser.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_pps_scc_extension_parser.h"
#include "h265_pred_weight_table_parser.h"
#include "h265_profile_tier_level_parser.h"
#include "h265_scaling_list_data_parser.h"
#include "h265_sei_parser.h"
#include "h265_utils.h"
#include "session.h"

namespace sim {

namespace {

struct Mem {
  char* p = nullptr;
  size_t n = 0;
  FILE* f;
  Mem() { f = open_memstream(&p, &n); }
  std::string take() {
    fclose(f);
    std::string s(p, n);
    free(p);
    return s;
  }
};

std::vector<Packed> some_packets(Run& r, Sender& s, unsigned max_units, unsigned p_damage) {
  Choices& c = r.ch;
  unsigned n = 1 + (unsigned)c.below(max_units);
  std::vector<UP> us;
  std::vector<Bytes> nals;
  for (unsigned i = 0; i < n; i++) {
    UP u = s.next();
    Bytes b = u->nal;
    if (c.chance(p_damage)) {
      r.fault(damage(r, b, c.chance(800)));
      if (c.chance(200)) r.fault(damage(r, b, true));
    }
    us.push_back(u);
    nals.push_back(b);
  }
  PackCfg pc;
  for (auto& b : nals)
    if (b.size() <= 3) pc.w_fu = 0;
  return packetise(r, &s, us, nals, pc);
}

struct Held {
  Result res;
  uint64_t tree = 0, dump = 0;
  Opt opt;
  int indent = -1;
  std::shared_ptr<hn::H265VpsParser::VpsState> vps;
  std::shared_ptr<hn::H265SpsParser::SpsState> sps;
  std::shared_ptr<hn::H265PpsParser::PpsState> pps;
  uint64_t now_tree() const {
    if (vps) return tree_of(*vps).hash();
    if (sps) return tree_of(*sps).hash();
    if (pps) return tree_of(*pps).hash();
    return res.tree().hash();
  }
  uint64_t now_dump() const {
    if (vps || sps || pps) {
      Mem m;
      if (vps) vps->fdump(m.f, indent);
      if (sps) sps->fdump(m.f, indent, opt);
      if (pps) pps->fdump(m.f, indent);
      std::string s = m.take();
      return hash_bytes(s.data(), s.size());
    }
    std::string s = res.dump(opt, indent);
    return hash_bytes(s.data(), s.size());
  }
};

}  // namespace

// C09 ------------------------------------------------------------------
void prop_C09(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SenderCfg sc = draw_sender_cfg(r);
  sc.w_repeat += 6;
  if (c.flag()) {
    sc.enc.id_space = 1 + (unsigned)c.below(2);  // many replacements
    sc.w_sps += 10;
    sc.w_pps += 10;
  }
  Sender s(r, sc);
  auto st = std::make_unique<State>();
  std::vector<std::unique_ptr<Held>> held;
  std::vector<std::pair<uint8_t*, Bytes>> bufs;  // caller's buffers, still owned, with their content
  unsigned p_damage = (unsigned)c.below(300);
  unsigned steps = 6 + (unsigned)c.below(thorough ? 80 : 30);
  auto verify = [&](Held& h, const char* when) {
    if (h.now_tree() != h.tree) r.fail("changed", "a retained result changed %s", when);
    if (h.now_dump() != h.dump) r.fail("dump-changed", "the dump of a retained result changed %s", when);
    if (h.now_tree() != h.tree) r.fail("changed-by-dump", "a retained result was changed by dumping it");
    r.count("retained results verified");
  };
  auto verify_some = [&](const char* when) {
    if (held.empty()) return;
    if (c.chance(250)) {
      for (auto& h : held) verify(*h, when);
    } else {
      verify(*held[c.below(held.size())], when);
      verify(*held[0], when);
    }
  };
  unsigned late = c.chance(15) ? steps / 2 + (unsigned)c.below(steps / 2) : ~0u;
  for (unsigned k = 0; k < steps; k++) {
    SpanGuard g(c);
    if (k == late && !s.all.empty()) {
      // much more is parsed while the results are kept
      unsigned n = c.chance(600) ? 600 : c.chance(800) ? 5000 : 70000;
      uint64_t seed = c.below(1ull << 32);
      bool same = c.flag();
      std::vector<const Bytes*> v;
      for (auto& u : s.all)
        if (u->raw.size() < 200 && (!same || !(u->type >= 32 && u->type <= 34))) v.push_back(&u->nal);
      State other;
      Opt o;
      o.add_checksum = true;
      for (unsigned i = 0; i < n && !v.empty(); i++) {
        const Bytes& b = *v[splitmix64(seed) % v.size()];
        auto u = hn::H265NalUnitParser::ParseNalUnit(b.data(), b.size(), same ? st.get() : &other, o);
        if (i < 2000 && u) dump_unit(*u, o, -1);
      }
      r.ev("%u more units parsed", n);
      r.probe("results kept over very many units");
      r.count("units parsed over kept results", n);
      for (auto& h : held) verify(*h, "by very many later units");
    }
    switch (c.below(10)) {
      default: {
        for (auto& p : some_packets(r, s, 4, p_damage)) {
          auto h = std::make_unique<Held>();
          h->opt = draw_opt(c);
          h->indent = c.flag() ? -1 : (int)c.below(3);
          size_t n = p.d.buf.size();
          uint8_t* b;
          if (!bufs.empty() && c.chance(400) && bufs.back().second.size() >= n) {
            // the caller reads the next data into the same buffer
            r.probe("input buffer reused");
            b = bufs.back().first;
          } else {
            b = static_cast<uint8_t*>(malloc(n ? n : 1));
            bufs.push_back({b, Bytes(n)});
          }
          Bytes& content = bufs.back().second;
          if (n) {
            memcpy(b, p.d.buf.data(), n);
            memcpy(content.data(), p.d.buf.data(), n);
          }
          scribble_stack(g_meter.fill + k);
          deliver(p.d.car, p.d.width, b, n, st.get(), p.d.opt, false, &h->res);
          if (n && memcmp(b, p.d.buf.data(), n)) r.fail("input-modified", "parsing over %s modified the input buffer", cname(p.d.car));
          r.ev("parse %s %zuB", cname(p.d.car), n);
          if (h->res.null()) continue;
          h->tree = h->now_tree();
          h->dump = h->now_dump();
          if (n && memcmp(b, p.d.buf.data(), n)) r.fail("input-modified", "dumping after %s modified the input buffer", cname(p.d.car));
          if (h->now_tree() != h->tree) r.fail("changed-by-dump", "dumping changed the result");
          r.evh("result", h->tree);
          if (p.d.car == Car::RTP && c.chance(200) && h->res.rtp) {
            hn::H265Utils::GetSliceQpY(h->res.rtp, st.get());
            verify(*h, "by a QP query");
          }
          held.push_back(std::move(h));
          r.count("results retained");
        }
        break;
      }
      case 5: {  // the sets themselves are handed out, too
        auto h = std::make_unique<Held>();
        uint32_t id = (uint32_t)c.below(4);
        switch (c.below(3)) {
          case 0: h->vps = st->GetVps(id); break;
          case 1: h->sps = st->GetSps(id); break;
          default: h->pps = st->GetPps(id);
        }
        if (h->vps || h->sps || h->pps) {
          h->tree = h->now_tree();
          h->dump = h->now_dump();
          held.push_back(std::move(h));
          r.probe("a stored set retained by the caller");
        }
        break;
      }
      case 6:
        if (!bufs.empty()) {
          size_t i = c.below(bufs.size());
          if (c.flag()) {
            memset(bufs[i].first, (int)c.below(256), bufs[i].second.size());
            r.fault("input buffer overwritten");
          } else {
            free(bufs[i].first);
            bufs.erase(bufs.begin() + (long)i);
            r.fault("input buffer released");
          }
        }
        break;
      case 7:
        if (!held.empty()) {
          size_t i = c.below(held.size());
          held.erase(held.begin() + (long)i);
          r.fault("result released");
        }
        break;
      case 8:
        if (c.chance(300)) {
          r.ev("state dropped");
          r.fault("parser state released");
          st = std::make_unique<State>();
        }
        break;
      case 9:
        if (c.chance(300)) {
          // a QP query parses another stream on the same state
          std::vector<UP> us{s.next(), s.next()};
          Packed p = pack_annexb(r, us, nals_of(us), true);
          hn::H265Utils::GetSliceQpY(p.d.buf.data(), p.d.buf.size(), st.get());
          r.ev("qp query");
        }
        break;
    }
    verify_some("after later calls");
    r.st.sim_time += 1000;
    r.state(mix(held.size() * 64 + bufs.size(), state_tree(*st).hash()));
  }
  if (c.flag()) {
    st.reset();
    r.fault("parser state released");
  }
  for (auto& b : bufs) free(b.first);
  while (!held.empty()) {
    for (size_t i = 0; i < held.size(); i++)
      if (i == 0 || c.chance(200)) verify(*held[i], "at the end");
    held.erase(held.begin() + (long)c.below(held.size()));
  }
}

// C10 ------------------------------------------------------------------
namespace {

template <class T>
auto dump_any(const T& x, FILE* f, int indent, const Opt&, int) -> decltype(x.fdump(f, indent)) {
  return x.fdump(f, indent);
}
template <class T>
auto dump_any(const T& x, FILE* f, int indent, const Opt& o, long) -> decltype(x.fdump(f, indent, o)) {
  return x.fdump(f, indent, o);
}

template <class T>
void dump_if(Run& r, const T& x) {
  if (!x) return;
  Mem m;
  int indent = (int)r.ch.below(3) - 1;
  dump_any(*x, m.f, indent, draw_opt(r.ch), 0);
  m.take();
}

// Part parsers with a buffer interface, on exactly sized memory.
void part_parsers(Run& r, const Bytes& in, State* st, std::string* name) {
  Choices& c = r.ch;
  size_t n = in.size();
  uint8_t* p = static_cast<uint8_t*>(malloc(n));
  if (n) memcpy(p, in.data(), n);
  switch (c.below(24)) {
    case 0: *name = "aud"; dump_if(r, hn::H265AudParser::ParseAud(p, n)); break;
    case 1: *name = "vps"; dump_if(r, hn::H265VpsParser::ParseVps(p, n)); break;
    case 2: *name = "sps"; dump_if(r, hn::H265SpsParser::ParseSps(p, n)); break;
    case 3: *name = "pps"; dump_if(r, hn::H265PpsParser::ParsePps(p, n)); break;
    case 4: *name = "sei"; dump_if(r, hn::H265SeiMessageParser::ParseSei(p, n)); break;
    case 5: {
      *name = "hrd";
      uint32_t a = (uint32_t)c.below(2), b = (uint32_t)c.below(7);
      dump_if(r, hn::H265HrdParametersParser::ParseHrdParameters(p, n, a, b));
      break;
    }
    case 6: *name = "pps_scc"; dump_if(r, hn::H265PpsSccExtensionParser::ParsePpsSccExtension(p, n)); break;
    case 7: {
      *name = "pred_weight_table";
      uint32_t a = (uint32_t)c.below(4), b = (uint32_t)c.below(16), d = (uint32_t)c.below(16);
      bool e = c.flag();
      dump_if(r, hn::H265PredWeightTableParser::ParsePredWeightTable(p, n, a, b, e, d));
      break;
    }
    case 8: *name = "profile"; dump_if(r, hn::H265ProfileInfoParser::ParseProfileInfo(p, n)); break;
    case 9: {
      *name = "ptl";
      bool a = c.flag();
      unsigned b = (unsigned)c.below(7);
      dump_if(r, hn::H265ProfileTierLevelParser::ParseProfileTierLevel(p, n, a, b));
      break;
    }
    case 10: *name = "scaling list"; dump_if(r, hn::H265ScalingListDataParser::ParseScalingListData(p, n)); break;
    case 11: {
      *name = "slice header";
      uint32_t t = (uint32_t)c.below(22);
      dump_if(r, hn::H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(p, n, t, st));
      break;
    }
    case 12: {
      *name = "payload";
      uint32_t t = (uint32_t)c.below(64);
      auto x = hn::H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, t, st);
      if (x) {
        Mem m;
        x->fdump(m.f, (int)c.below(3) - 1, t, draw_opt(c));
        m.take();
      }
      break;
    }
    case 13: {
      *name = "vui";
      dump_if(r, hn::H265VuiParametersParser::ParseVuiParameters(p, n, (uint32_t)c.below(7)));
      break;
    }
    case 14: {
      *name = "sub-layer hrd";
      uint32_t a = (uint32_t)c.below(7), b = (uint32_t)(c.flag() ? c.below(33) : c.below(3)), d = (uint32_t)c.below(2);
      dump_if(r, hn::H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(p, n, a, b, d));
      break;
    }
    case 15: *name = "sps range"; dump_if(r, hn::H265SpsRangeExtensionParser::ParseSpsRangeExtension(p, n)); break;
    case 16: *name = "sps 3d"; dump_if(r, hn::H265Sps3dExtensionParser::ParseSps3dExtension(p, n)); break;
    case 17: *name = "sps multilayer"; dump_if(r, hn::H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(p, n)); break;
    case 18: {
      *name = "sps scc";
      uint32_t a = (uint32_t)c.below(4), b = (uint32_t)c.below(9), d = (uint32_t)c.below(9);
      dump_if(r, hn::H265SpsSccExtensionParser::ParseSpsSccExtension(p, n, a, b, d));
      break;
    }
    case 19: *name = "pps multilayer"; dump_if(r, hn::H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(p, n)); break;
    case 20: {
      *name = "slice layer";
      dump_if(r, hn::H265SliceSegmentLayerParser::ParseSliceSegmentLayer(p, n, (uint32_t)c.below(22), st));
      break;
    }
    case 21: {
      // one set after the other from the same bytes, each may refer to the ones before
      *name = "st_ref_pic_set";
      std::vector<std::unique_ptr<hn::H265StRefPicSetParser::StRefPicSetState>> v;
      uint32_t num = 1 + (uint32_t)c.below(6), max_pics = (uint32_t)c.below(17);
      for (uint32_t i = 0; i <= num; i++) {
        size_t k = n ? c.below(n) : 0;
        auto x = hn::H265StRefPicSetParser::ParseStRefPicSet(p + k, n - k, i, num, &v, max_pics);
        dump_if(r, x);
        if (!x) break;
        v.push_back(std::move(x));
      }
      break;
    }
    case 22: {
      *name = "rtp parts";
      unsigned k = (unsigned)c.below(3);
      if (k == 0) dump_if(r, hn::H265RtpSingleParser::ParseRtpSingle(p, n, st));
      else if (k == 1) dump_if(r, hn::H265RtpApParser::ParseRtpAp(p, n, st));
      else dump_if(r, hn::H265RtpFuParser::ParseRtpFu(p, n, st));
      break;
    }
    default: {
      *name = "index";
      hn::H265BitstreamParser::FindNaluIndices(p, n);
      hn::NalUnitType t;
      hn::H265NalUnitHeaderParser::GetNalUnitType(p, n, t);
      dump_if(r, hn::H265NalUnitHeaderParser::ParseNalUnitHeader(p, n));
    }
  }
  free(p);
}

}  // namespace

void prop_C10(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  static const unsigned lv[] = {10, 0, 3, 40, 150};
  SenderCfg sc = draw_sender_cfg(r);
  sc.w_vps += 4;
  sc.w_sei += 8;
  if (c.chance(250)) sc.enc.greedy_permille = 400;
  Sender s(r, sc);
  std::vector<std::unique_ptr<State>> sts;
  for (unsigned i = 0, n = 1 + (unsigned)c.below(2); i < n; i++) sts.push_back(std::make_unique<State>());
  std::vector<std::unique_ptr<Result>> held;
  unsigned hostile = lv[c.below(5)];
  unsigned p_damage = (unsigned)c.below(500), p_buf = (unsigned)c.below(400);
  unsigned steps = 5 + (unsigned)c.below(thorough ? 60 : 24);
  g_meter.edge_limit = 0;
  for (unsigned k = 0; k < steps; k++) {
    SpanGuard g(c);
    State* st = sts[c.below(sts.size())].get();
    // the first few units come clean, so that later ones have sets to refer to
    g_hostile.c = &c;
    g_hostile.permille = k < 2 && c.flag() ? 0 : hostile;
    auto ps = some_packets(r, s, 5, p_damage);
    g_hostile.permille = 0;
    for (auto& p : ps) {
      if (c.chance(p_buf)) r.fault(damage(r, p.d.buf));
      if (c.chance(30)) {
        // no structure at all
        p.d.buf.resize(c.below(c.chance(100) ? 5000 : 100));
        uint64_t style = c.below(4), v = c.below(256);
        for (auto& b : p.d.buf)
          b = (uint8_t)(style == 0 ? c.below(256) : style == 1 ? c.below(3) : style == 2 ? v : (c.chance(900) ? 0xff : c.below(256)));
        r.fault("noise instead of data");
      }
      if (c.chance(40)) {
        p.d.car = (Car)c.below(8);
        r.fault("data of another carrier");
      }
      if (p.d.car == Car::LEN && c.chance(200)) {
        p.d.width = (unsigned)c.below(20);
        r.fault("unexpected length-field width");
      }
      p.d.own_state = c.chance(60);
      auto q = std::make_unique<Result>();
      scribble_stack(g_meter.fill + k);
      g_meter.edges = 0;
      g_meter.edge_limit = 400000000;
      if (!deliver(p.d, st, q.get())) r.fail("input-modified", "parsing over %s modified the input buffer", cname(p.d.car));
      r.ev("%s %zuB %s", cname(p.d.car), p.d.buf.size(), q->null() ? "refused" : "reported");
      r.count("calls");
      if (!q->null()) {
        if (c.chance(700)) {
          Opt o = draw_opt(c);
          o.add_checksum = c.flag();
          std::string t = q->dump(o, (int)c.below(4) - 1);
          r.evh("dump", hash_bytes(t.data(), t.size()));
          r.count("dumps");
        }
        if (q->rtp && c.chance(700)) {
          // perhaps with a state that has moved on, or is another one
          auto v = hn::H265Utils::GetSliceQpY(q->rtp, sts[c.below(sts.size())].get());
          r.evh("qp", v ? (uint64_t)(uint32_t)*v : ~0ull);
          r.count("qp queries");
        }
        r.state(mix((uint64_t)p.d.car, q->tree().hash()));
        if (c.chance(500)) held.push_back(std::move(q));
      }
      if (c.chance(150)) {
        Bytes b(p.d.buf);
        uint8_t* m = static_cast<uint8_t*>(malloc(b.size()));
        if (b.size()) memcpy(m, b.data(), b.size());
        auto v = hn::H265Utils::GetSliceQpY(m, b.size(), st);
        free(m);
        r.evh("stream qp", v.size());
        r.count("qp queries");
      }
      if (c.chance(200) && !p.nals.empty()) {
        std::string nm = "?";
        Bytes raw = unescape(p.nals[c.below(p.nals.size())]);
        if (raw.size() > 2 && c.chance(800)) raw.erase(raw.begin(), raw.begin() + 2);
        if (c.chance(300)) r.fault(damage(r, raw));
        part_parsers(r, raw, st, &nm);
        r.ev("part parser %s %zuB", nm.c_str(), raw.size());
        r.count("part parser calls");
      }
      g_meter.edge_limit = 0;
    }
    if (c.chance(100) && !held.empty()) {
      size_t i = c.below(held.size());
      if (c.flag()) held[i]->dump(draw_opt(c), (int)c.below(3) - 1);
      held.erase(held.begin() + (long)i);
    }
    if (c.chance(30)) {
      r.fault("receiver restarted");
      sts[c.below(sts.size())] = std::make_unique<State>();
    }
    r.st.sim_time += 1000;
  }
  r.count("hostile syntax elements", g_hostile.hits);
  if (c.flag()) sts.clear();
  if (c.flag())
    for (auto& h : held) h->dump(draw_opt(c), 0);
}

// C11 ------------------------------------------------------------------
namespace {

struct Cost {
  uint64_t edges = 0, total = 0, peak = 0, dump_edges = 0, dump = 0;
  size_t n = 0, sets = 0;
};

// Bytes of the sets stored in a state, as the sum of the largest unit each id
// was ever stored from.
struct SetBytes {
  std::map<uint64_t, size_t> by_slot;
  size_t total() const {
    size_t t = 0;
    for (auto& x : by_slot) t += x.second;
    return t;
  }
  void see(const State& st, size_t n) {
    // any slot may have been written by this delivery
    auto one = [&](int k, const auto& m) {
      for (auto& x : m) {
        uint64_t key = (uint64_t)k << 32 | x.first;
        auto it = seen.find(key);
        if (it != seen.end() && it->second == x.second.get()) continue;
        seen[key] = x.second.get();
        by_slot[key] = n;
      }
    };
    one(0, st.vps);
    one(1, st.sps);
    one(2, st.pps);
  }
  std::map<uint64_t, const void*> seen;
};

Cost measure(Run& r, const Delivery& d, State* st, SetBytes* sb, int indent) {
  Cost k;
  size_t n = d.buf.size();
  uint8_t* p = static_cast<uint8_t*>(malloc(n));
  if (n) memcpy(p, d.buf.data(), n);
  Result q;
  k.n = n;
  k.sets = sb ? sb->total() : 0;
  g_meter.edges = 0;
  g_meter.alloc_total = 0;
  g_meter.alloc_live = g_meter.alloc_peak = 0;
  g_meter.edge_limit = 400000000;
  deliver(d.car, d.width, p, n, st, d.opt, d.own_state, &q);
  k.edges = g_meter.edges;
  k.total = g_meter.alloc_total;
  k.peak = g_meter.alloc_peak;
  free(p);
  if (!q.null()) {
    g_meter.edges = 0;
    Opt o;
    o.add_checksum = o.add_offset = o.add_length = o.add_parsed_length = o.add_resolution = true;
    std::string t = q.dump(o, indent);
    k.dump_edges = g_meter.edges;
    k.dump = t.size();
  }
  g_meter.edge_limit = 0;
  if (sb) sb->see(*st, n);
  return k;
}

// The most seen for any unit, legal or hostile, was 115 steps, 825 bytes
// allocated, 150 bytes dumped and 20 dump steps per byte; the bounds leave a
// factor of about eight, and a constant for tiny inputs.
const uint64_t kEdgeA = 60000, kEdgeB = 1000;
const uint64_t kMemA = 300000, kMemB = 4000;
const uint64_t kDumpA = 60000, kDumpB = 1000;
const uint64_t kDumpEdgeA = 20000, kDumpEdgeB = 200;

void bound(Run& r, const Cost& k, const char* what) {
  uint64_t n = k.n + k.sets;
  auto hw = [&](const char* nm, uint64_t v) {
    if (getenv("H265SIM_CAL")) {
      FILE* f = fopen("/tmp/cal.txt", "a");
      fprintf(f, "%s %zu %zu %" PRIu64 " %s\n", nm, k.n, k.sets, v, what);
      fclose(f);
    }
  };
  hw("edges", k.edges);
  hw("mem", k.total);
  hw("dump", k.dump);
  hw("dumpedges", k.dump_edges);
  if (k.edges > kEdgeA + kEdgeB * n)
    r.fail("steps", "%s: %" PRIu64 " steps for %zu bytes and %zu bytes of stored sets", what, k.edges, k.n, k.sets);
  if (k.total > kMemA + kMemB * n)
    r.fail("memory", "%s: %" PRIu64 " bytes allocated for %zu bytes and %zu bytes of stored sets", what, k.total, k.n, k.sets);
  if (k.dump > kDumpA + kDumpB * n)
    r.fail("output", "%s: dump of %" PRIu64 " bytes for %zu bytes and %zu bytes of stored sets", what, k.dump, k.n, k.sets);
  if (k.dump_edges > kDumpEdgeA + kDumpEdgeB * n)
    r.fail("dump-steps", "%s: dump takes %" PRIu64 " steps for %zu bytes and %zu bytes of stored sets", what, k.dump_edges, k.n, k.sets);
}

// A family of inputs of growing size.
struct Family {
  int kind;
  Car car;
  unsigned width;
  Bytes head, unit, tail;
  unsigned type;
  Opt opt;
  const char* name;
  bool whole = false;
};
Delivery member(const Family& f, size_t n) {
  Delivery d;
  d.car = f.car;
  d.width = f.width;
  d.opt = f.opt;
  Bytes& b = d.buf;
  auto put = [&](const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); };
  if (f.kind == 0) {  // one unit, its payload a repeated pattern
    Bytes raw = f.head;
    while (raw.size() < f.head.size() + n) raw.insert(raw.end(), f.unit.begin(), f.unit.end());
    raw.resize(f.head.size() + n);
    raw.insert(raw.end(), f.tail.begin(), f.tail.end());
    Bytes nal = escape(raw);
    if (f.car == Car::UNESC) nal = raw;
    if (f.car == Car::ANNEXB) put({0, 0, 1});
    if (f.car == Car::LEN)
      for (int i = 3; i >= 0; i--) b.push_back((uint8_t)(nal.size() >> (8 * i)));
    put(nal);
    return d;
  }
  if (f.kind == 2) {  // bytes as no encoder writes them: a pattern that is not escaped
    size_t at = b.size();
    if (f.car == Car::LEN) put({0, 0, 0, 0});
    put(f.head);
    size_t from = b.size();
    while (b.size() < from + n) put(f.unit);
    b.resize(from + n);
    if (f.car == Car::LEN && f.whole)
      for (int i = 0; i < 4; i++) b[at + (size_t)i] = (uint8_t)((b.size() - at - 4) >> (24 - 8 * i));
    put(f.tail);
    return d;
  }
  // many units
  if (f.car == Car::RTP) put({96, 1});
  if (f.car == Car::HVCC) {
    b.assign(23, 0);
    b[0] = 1;
    b[13] = 0xf0;
    b[15] = 0xfc;
    b[16] = 0xfc;
    b[17] = 0xf8;
    b[18] = 0xf8;
    b[21] = 3;
    b[22] = 1;
    put({0x20, (uint8_t)(n >> 8), (uint8_t)n});
  }
  for (size_t i = 0; i < n; i++) {
    if (f.car == Car::ANNEXB) put({0, 0, 1});
    if (f.car == Car::RTP || f.car == Car::HVCC) put({(uint8_t)(f.unit.size() >> 8), (uint8_t)f.unit.size()});
    if (f.car == Car::LEN)
      for (int k = 3; k >= 0; k--) b.push_back((uint8_t)(f.unit.size() >> (8 * k)));
    put(f.unit);
  }
  return d;
}

// A long history: what the parser does for the same bytes and sets must not
// get dearer, and nothing may stay behind when everything has been destroyed.
void long_history(Run& r, bool thorough) {
  Choices& c = r.ch;
  if (c.chance(700)) fill_memory(r);
  g_meter.recycle = 0;
  static const unsigned lv[] = {0, 10, 40};
  SenderCfg sc = draw_sender_cfg(r);
  sc.w_vps += 2;
  sc.w_sei += 3;
  Sender s(r, sc);
  auto list = [&](unsigned n, unsigned hostile, unsigned p_damage) {
    std::vector<Packed> v;
    for (unsigned k = 0; k < n; k++) {
      SpanGuard g(c);
      g_hostile.c = &c;
      g_hostile.permille = hostile;
      for (auto& p : some_packets(r, s, 3, p_damage)) v.push_back(std::move(p));
      g_hostile.permille = 0;
      if (c.chance(200) && !v.back().d.buf.empty()) {
        // next to nothing, refused early
        v.back().d.buf.resize(c.below(std::min<size_t>(v.back().d.buf.size(), 5)));
        r.fault("cut to almost nothing");
      }
    }
    return v;
  };
  std::vector<Packed> probe = list(3 + (unsigned)c.below(6), 0, (unsigned)c.below(2) * 200);
  unsigned hostile = lv[c.below(3)], p_damage = (unsigned)c.below(400);
  int indent = c.flag() ? 0 : -1;
  auto play = [&](const std::vector<Packed>& v, State* st, Cost* sum) {
    for (auto& p : v) {
      Cost k = measure(r, p.d, st, nullptr, indent);
      if (!sum) continue;
      sum->n += k.n;
      sum->edges += k.edges;
      sum->total += k.total;
      sum->dump_edges += k.dump_edges;
      sum->dump += k.dump;
    }
  };
  auto fresh = [&] {
    auto st = std::make_unique<State>();
    Cost k;
    play(probe, st.get(), &k);
    return k;
  };
  fresh();   // whatever is set up on first use
  Cost before = fresh();
  // the history: other units on a session of their own or on several, then the
  // same ones over and over
  auto st = std::make_unique<State>();
  unsigned rounds = 5 + (unsigned)c.below(thorough ? 60 : 20), units = 0;
  bool reopen = c.chance(300);
  for (unsigned k = 0; k < rounds; k++) {
    auto v = list(1 + (unsigned)c.below(4), hostile, p_damage);
    if (reopen) st = std::make_unique<State>();
    play(v, st.get(), nullptr);
    units += (unsigned)v.size();
  }
  unsigned again = 20 + (unsigned)c.below(thorough ? 400 : 60);
  size_t up = 0, live = 0, first = 0;
  for (unsigned k = 0; k < again; k++) {
    st.reset();
    if (k < 3 || k + 16 >= again || !reopen) {
      fresh();
    } else {
      State x;
      play(probe, &x, nullptr);
    }
    size_t now = __sanitizer_get_current_allocated_bytes();
    if (k + 16 == again) first = now, up = 0;
    if (now > live) up++;
    live = now;
  }
  r.count("deliveries in long histories", units + again * probe.size());
  r.st.faults["long history"]++;
  if (up >= 15) r.fail("leak", "%zu bytes are held more after each of 16 rounds of the same %zu deliveries whose results and states were destroyed", (live - first) / 16, probe.size());
  Cost after = fresh();
  r.ev("history of %u deliveries, then %u rounds of %zu: steps %" PRIu64 " -> %" PRIu64 ", allocated %" PRIu64 " -> %" PRIu64, units, again, probe.size(),
       before.edges, after.edges, before.total, after.total);
  r.state(mix(before.edges, before.total));
  r.st.sim_time += before.edges * again;
  auto same = [&](const char* cls, const char* what, uint64_t b, uint64_t a) {
    if (a > b + b / 4 + 400) r.fail(cls, "the same %zu deliveries to a new session: %" PRIu64 " %s at first, %" PRIu64 " after %zu others", probe.size(), b, what, a, (size_t)units + again * probe.size());
  };
  same("history-steps", "steps", before.edges, after.edges);
  same("history-memory", "bytes allocated", before.total, after.total);
  same("history-dump", "bytes dumped", before.dump, after.dump);
  same("history-dump-steps", "dump steps", before.dump_edges, after.dump_edges);
}

}  // namespace

void prop_C11(Run& r, bool thorough) {
  Choices& c = r.ch;
  if (c.chance(120)) {
    long_history(r, thorough);
    return;
  }
  // growth of families first: cheap, and independent of calibrated constants
  bool growth = c.chance(350);
  static const unsigned lv[] = {10, 0, 3, 40};
  SenderCfg sc = draw_sender_cfg(r);
  sc.w_vps += 4;
  sc.w_sei += 8;
  if (c.chance(250)) sc.enc.greedy_permille = 400;
  Sender s(r, sc);
  State st;
  SetBytes sb;
  unsigned hostile = lv[c.below(4)];
  unsigned p_damage = (unsigned)c.below(400);
  unsigned steps = growth ? 3 : 5 + (unsigned)c.below(thorough ? 50 : 20);
  for (unsigned k = 0; k < steps; k++) {
    SpanGuard g(c);
    g_hostile.c = &c;
    g_hostile.permille = k < 2 || growth ? 0 : hostile;
    auto ps = some_packets(r, s, 5, growth ? 0 : p_damage);
    g_hostile.permille = 0;
    for (auto& p : ps) {
      if (c.chance(growth ? 0 : 60)) r.fault(damage(r, p.d.buf));
      if (!growth && c.chance(30)) {
        p.d.buf.resize(c.below(c.chance(200) ? 60000 : 300));
        uint64_t style = c.below(4), v = c.below(256);
        for (auto& b : p.d.buf)
          b = (uint8_t)(style == 0 ? c.below(256) : style == 1 ? c.below(3) : style == 2 ? v : (c.chance(900) ? 0xff : c.below(256)));
        r.fault("noise instead of data");
      }
      Cost q = measure(r, p.d, &st, &sb, c.flag() ? 0 : -1);
      r.ev("%s %zuB sets %zuB: %" PRIu64 " steps, dump %" PRIu64, cname(p.d.car), q.n, q.sets, q.edges, q.dump);
      bound(r, q, cname(p.d.car));
      r.count("calls measured");
      r.st.sim_time += q.edges + q.dump_edges;
      uint64_t lg = 0, le = 0;
      while (q.n >> lg) lg++;
      while (q.edges >> le) le++;
      r.state(mix(mix((uint64_t)p.d.car, lg * 64 + le), hash_bytes(p.d.buf.data(), std::min<size_t>(24, q.n))));
    }
    if (!growth && c.chance(250)) {
      // a record whose counts and lengths promise more, or other, than it holds
      Delivery d;
      d.car = Car::HVCC;
      d.opt = draw_opt(c);
      Bytes& b = d.buf;
      b.assign(23, 0);
      b[0] = 1;
      b[13] = 0xf0;
      b[15] = 0xfc;
      b[16] = 0xfc;
      b[17] = 0xf8;
      b[18] = 0xf8;
      b[21] = 3;
      auto count = [&](uint64_t real) { return (uint16_t)(c.chance(500) ? real : c.flag() ? 65535 - c.below(3) : c.below(65536)); };
      unsigned arrays = (unsigned)c.below(c.chance(100) ? 200 : 4);
      b[22] = (uint8_t)(c.chance(700) ? arrays : c.below(256));
      for (unsigned a = 0; a < arrays; a++) {
        unsigned units = (unsigned)c.below(4);
        uint16_t m = count(units);
        b.insert(b.end(), {(uint8_t)(c.below(2) << 7 | (32 + c.below(8))), (uint8_t)(m >> 8), (uint8_t)m});
        for (unsigned i = 0; i < units; i++) {
          Bytes u = c.chance(300) ? Bytes() : s.next()->nal;
          if (u.size() > 2000) u.resize(c.below(2000));
          uint16_t len = count(u.size());
          b.insert(b.end(), {(uint8_t)(len >> 8), (uint8_t)len});
          b.insert(b.end(), u.begin(), u.end());
        }
      }
      r.fault("record with false counts");
      Cost q = measure(r, d, &st, &sb, c.flag() ? 0 : -1);
      bound(r, q, "configuration record");
      r.count("calls measured");
      r.st.sim_time += q.edges + q.dump_edges;
    }
    if (!growth && c.chance(200)) {
      // the QP query parses, too
      std::vector<UP> us{s.next(), s.next(), s.next()};
      Packed p = pack_annexb(r, us, nals_of(us), true);
      size_t n = p.d.buf.size() + sb.total();
      g_meter.edges = 0;
      g_meter.edge_limit = 400000000;
      hn::H265Utils::GetSliceQpY(p.d.buf.data(), p.d.buf.size(), &st);
      g_meter.edge_limit = 0;
      sb.see(st, p.d.buf.size());
      if (g_meter.edges > kEdgeA + kEdgeB * n) r.fail("steps", "QP query: %" PRIu64 " steps for %zu bytes", g_meter.edges, n);
    }
  }
  if (!growth) {
    r.count("hostile syntax elements", g_hostile.hits);
    return;
  }
  for (unsigned k = 0; k < 3; k++) {
    SpanGuard g(c);
    Family f;
    f.opt = draw_opt(c);
    f.width = 4;
    f.kind = (int)c.below(3);
    size_t n;
    if (f.kind == 0) {
      static const Car cars[] = {Car::UNIT, Car::ANNEXB, Car::LEN, Car::RTP, Car::UNESC, Car::PART};
      f.car = cars[c.below(6)];
      // a real unit cut somewhere, then a pattern
      UP u = c.chance(700) ? s.next() : s.make(K::SEI);
      f.head = u->raw;
      if (u->kind == K::SEI && c.flag()) {
        // let the SEI message claim all of it
        f.head.resize(2);
        if (c.flag()) f.head.push_back((uint8_t)c.below(256));
      } else if (c.chance(800)) {
        f.head.resize(2 + c.below(f.head.size() - 1));
      }
      unsigned m = 1 + (unsigned)c.below(4);
      for (unsigned i = 0; i < m; i++) f.unit.push_back((uint8_t)(c.flag() ? (c.flag() ? 0 : 0xff) : c.below(256)));
      n = 400 + c.below(2000);
      if (u->kind == K::SEI && c.flag() && f.head.size() == 3) {
        // a payload size field that fits the pattern exactly is a family of
        // its own: ff bytes grow with the size
        f.head.push_back(0xff);
      }
      f.name = "one growing unit";
    } else if (f.kind == 2) {
      static const Car cars[] = {Car::ANNEXB, Car::LEN, Car::UNIT, Car::RTP, Car::HVCC, Car::PART};
      f.car = cars[c.chance(400) ? 0 : c.below(6)];
      f.whole = c.flag();
      switch (c.below(3)) {
        case 0: break;
        case 1: f.head = s.next()->nal; break;
        default:
          if (f.car == Car::ANNEXB) f.head = {0, 0, 1};
          f.head.insert(f.head.end(), {(uint8_t)(c.below(50) << 1), 1});
      }
      if (f.car == Car::HVCC && c.flag()) f.head = {1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xf0, 0, 0xfc, 0xfc, 0xf8, 0xf8, 0, 0, 3, 0xff};
      unsigned m = c.flag() ? 1 : 1 + (unsigned)c.below(5);
      static const uint8_t usual[] = {0, 0, 0, 1, 3, 0xff, 2, 0x80};
      for (unsigned i = 0; i < m; i++) f.unit.push_back(c.chance(900) ? usual[c.below(8)] : (uint8_t)c.below(256));
      if (c.flag()) {
        if (c.flag()) f.tail = {0, 0, 1};
        Bytes u = s.next()->nal;
        f.tail.insert(f.tail.end(), u.begin(), u.end());
      }
      n = 400 + c.below(3000);
      f.name = "growing raw pattern";
    } else {
      static const Car cars[] = {Car::ANNEXB, Car::LEN, Car::RTP, Car::HVCC};
      f.car = cars[c.below(4)];
      UP u = c.flag() ? s.make(K::AUD) : s.next();
      f.unit = u->nal;
      if (c.chance(200)) r.fault(damage(r, f.unit, true));
      if (f.unit.size() > 200) f.unit.resize(200);
      if (c.chance(150) && f.car == Car::HVCC) f.unit.clear();
      n = 60 + c.below(200);
      f.name = "growing number of units";
    }
    Cost v[4];
    int indent = c.flag() ? 0 : -1;
    for (int i = 0; i < 4; i++) {
      Delivery d = member(f, n << i);
      v[i] = measure(r, d, &st, &sb, indent);
      r.st.sim_time += v[i].edges + v[i].dump_edges;
    }
    for (auto& x : v) bound(r, x, f.name);
    r.ev("%s over %s, %zu bytes: steps %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " dump %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64, f.name,
         cname(f.car), v[0].n, v[0].edges, v[1].edges, v[2].edges, v[3].edges, v[0].dump, v[1].dump, v[2].dump, v[3].dump);
    auto grow = [&](const char* what, uint64_t Cost::*m, uint64_t slack) {
      // Each doubling of the input adds twice what the one before it added if
      // the cost is linear, four times if it is quadratic. Something that
      // starts to parse only from some length on is one step, in one doubling.
      uint64_t a[4], d[3];
      for (int i = 0; i < 4; i++) a[i] = v[i].*m;
      for (int i = 0; i < 3; i++) d[i] = a[i + 1] > a[i] ? a[i + 1] - a[i] : 0;
      if (d[1] > 5 * d[0] / 2 + slack && d[2] > 5 * d[1] / 2 + slack)
        r.fail(std::string("growth-") + what,
               "%s over %s: %s grows faster than the input: %" PRIu64 ", %" PRIu64 ", %" PRIu64 ", %" PRIu64 " for %zu, %zu, %zu, %zu bytes", f.name,
               cname(f.car), what, a[0], a[1], a[2], a[3], v[0].n, v[1].n, v[2].n, v[3].n);
    };
    grow("steps", &Cost::edges, 30000);
    grow("memory", &Cost::total, 200000);
    grow("output", &Cost::dump, 30000);
    grow("dump steps", &Cost::dump_edges, 30000);
    r.count("growth families");
  }
}

}  // namespace sim
