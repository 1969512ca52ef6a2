// The sender: an independent transcription of the H.265 syntax tables that
// produces legal NAL units from drawn values and remembers what it coded.
#pragma once
#include <algorithm>

#include "node.h"

namespace sim {

// A sender that codes some elements with values of its own choosing (syntax
// aware damage). Whatever follows is then usually out of step.
struct Hostile {
  Choices* c = nullptr;
  unsigned permille = 0;
  uint64_t hits = 0;
  bool hit() {
    if (!c || !c->chance(permille)) return false;
    hits++;
    return true;
  }
  uint64_t value(unsigned bits) {
    uint64_t m = bits >= 64 ? UINT64_MAX : (1ull << bits) - 1;
    switch (c->below(7)) {
      case 0: return m;
      case 1: return m - 1;
      case 2: return 0;
      case 3: return (1ull << c->below(bits)) & m;
      case 4: return ((1ull << c->below(bits)) - 1) & m;
      case 5: return c->below(300) & m;
      default: return c->below(UINT64_MAX) & m;
    }
  }
};
inline Hostile g_hostile;

struct BitOut {
  Bytes b;
  size_t n = 0;  // bits written
  // where long elements begin and how long they are: a unit cut inside one
  // leaves bits that may pass for what follows
  std::vector<std::pair<size_t, size_t>> longs;
  void append(const BitOut& o) {
    for (auto& x : o.longs) longs.push_back({x.first + n, x.second});
    for (size_t i = 0; i < o.n; i++) bit((o.b[i / 8] >> (7 - i % 8)) & 1);
  }
  void byte(uint8_t v) {  // only where aligned
    b.push_back(v);
    n += 8;
  }
  void bit(unsigned v) {
    if (n % 8 == 0) b.push_back(0);
    if (v & 1) b.back() |= (uint8_t)(0x80 >> (n % 8));
    n++;
  }
  void put(unsigned len, uint64_t v) {
    for (unsigned i = len; i-- > 0;) bit((unsigned)((v >> i) & 1));
  }
  void u(unsigned len, uint64_t v) {
    if (len && g_hostile.hit()) v = g_hostile.value(len);
    if (len > 10 && longs.size() < 1000) longs.push_back({n, len});
    put(len, v);
  }
  void ue(uint64_t v) {
    if (g_hostile.hit()) v = g_hostile.value(g_hostile.c->flag() ? 32 : 8);
    uint64_t x = v + 1;
    unsigned len = 0;
    while ((x >> len) > 1) len++;
    if (len > 3 && longs.size() < 1000) longs.push_back({n, 2 * len + 1});
    put(len, 0);
    put(len + 1, x);
  }
  void se(int64_t v) { ue(v > 0 ? (uint64_t)(2 * v - 1) : (uint64_t)(-2 * v)); }
  void trailing() {
    bit(1);
    while (n % 8) bit(0);
  }
};

// Value ranges: mostly small, sometimes the extremes.
struct Draw {
  Choices& c;
  uint64_t val(uint64_t lo, uint64_t hi) {
    if (lo >= hi) return lo;
    uint64_t span = hi - lo;
    switch (c.below(8)) {
      case 0: case 1: case 2: return lo + c.below(std::min<uint64_t>(span, 3) + 1);
      case 3: return lo + c.below(std::min<uint64_t>(span, 16) + 1);
      case 4: return hi - c.below(std::min<uint64_t>(span, 1) + 1);
      case 5: {  // around a power of two
        unsigned k = 0;
        while ((span >> k) > 1) k++;
        uint64_t p = (1ull << c.below(k + 1)) - c.below(2);
        return lo + std::min(span, p);
      }
      default: return lo + (span == UINT64_MAX ? c.below(UINT64_MAX) : c.below(span + 1));
    }
  }
  int64_t sval(int64_t lo, int64_t hi) {  // 0 must be inside
    if (c.below(2) == 0) return (int64_t)val(0, (uint64_t)hi);
    return -(int64_t)val(0, (uint64_t)(-lo));
  }
  bool flag(unsigned permille = 400) { return c.chance(permille); }
};

struct RpsM {
  std::vector<std::pair<int, int>> neg, pos;  // (delta poc, used)
  int used() const {
    int n = 0;
    for (auto& p : neg) n += p.second;
    for (auto& p : pos) n += p.second;
    return n;
  }
  size_t size() const { return neg.size() + pos.size(); }
};

struct SpsM {
  unsigned id = 0;
  unsigned chroma = 1, sep_plane = 0, width = 0, height = 0, ctb = 4, log2_poc = 4;
  unsigned max_pics = 0;
  std::vector<RpsM> rps;
  bool lt = false;
  std::vector<int> lt_used;
  bool tmvp = false, sao = false;
  unsigned mvres = 0;
  unsigned depth_l = 8, depth_c = 8;
  unsigned wctb() const { return (width + (1u << ctb) - 1) >> ctb; }
  unsigned hctb() const { return (height + (1u << ctb) - 1) >> ctb; }
  unsigned chroma_array_type() const { return sep_plane ? 0 : chroma; }
};
struct PpsM {
  unsigned id = 0, sps_id = 0;
  bool dep = false, outflag = false, cabac_init = false, chroma_qp = false;
  bool wp = false, wbp = false, tiles = false, wpp = false, lf_slices = false;
  bool dbk_override = false, dbk_disabled = false, lists_mod = false, ext = false;
  bool act = false, curr_pic_ref = false;
  unsigned extra_bits = 0, l0 = 0, l1 = 0, cols = 0, rows = 0;
  bool greedy = false;  // more tiles than any picture has
  int init_qp = 0;
};

enum class K { VPS, SPS, PPS, SLICE, AUD, SEI, EOS, EOB, FD, OTHER };
inline const char* kname(K k) {
  static const char* n[] = {"VPS", "SPS", "PPS", "SLICE", "AUD", "SEI", "EOS", "EOB", "FD", "OTHER"};
  return n[(int)k];
}

struct Unit {
  K kind = K::OTHER;
  unsigned type = 0, layer = 0, tid = 1;
  Bytes raw;         // header + RBSP, before emulation prevention
  Bytes nal;         // as carried
  size_t syn_bits = 16;   // end of the parsed syntax, in raw
  size_t mand_bits = 16;  // end of the last mandatory syntax bit, in raw
  Node header = Node::Obj();
  Node body;              // expected content, null if none
  unsigned set_id = 0;    // for VPS/SPS/PPS
  unsigned pps_id = 0;    // for slices
  bool dependent = false;
  int qp_delta = 0;
  std::shared_ptr<SpsM> sps;  // own model, or the one a slice was coded with
  std::shared_ptr<PpsM> pps;
  int sps_uid = -1, pps_uid = -1;  // unit ids of the sets a slice was coded with
  int uid = -1;
  bool beyond = false;             // holds an element beyond its limits
  std::vector<std::pair<size_t, size_t>> longs;  // bit positions and lengths of long elements
  std::string brief() const {
    char b[128];
    if (kind == K::SLICE)
      snprintf(b, sizeof b, "#%d SLICE type=%u pps=%u (sets #%d,#%d) %zuB", uid, type, pps_id, pps_uid, sps_uid, nal.size());
    else if (kind == K::VPS || kind == K::SPS || kind == K::PPS)
      snprintf(b, sizeof b, "#%d %s id=%u %zuB", uid, kname(kind), set_id, nal.size());
    else
      snprintf(b, sizeof b, "#%d %s type=%u %zuB", uid, kname(kind), type, nal.size());
    return b;
  }
};

// A syntax structure on its own.
struct Part {
  unsigned kind = 0;
  Bytes bits;
  size_t n = 0;                                   // in bits
  Node want;
  std::vector<uint64_t> args;
  std::vector<std::pair<Bytes, size_t>> before;   // reference picture sets it may refer to
};

inline Bytes escape(const Bytes& raw) {
  Bytes o;
  o.reserve(raw.size() + 8);
  int z = 0;
  for (uint8_t x : raw) {
    if (z >= 2 && x <= 3) {
      o.push_back(3);
      z = 0;
    }
    o.push_back(x);
    z = x == 0 ? z + 1 : 0;
  }
  if (z >= 2) o.push_back(3);  // a unit that ends in cabac_zero_words
  return o;
}
// Reference for emulation prevention removal (7.3.1.1).
inline Bytes unescape(const Bytes& in) {
  Bytes o;
  o.reserve(in.size());
  int z = 0;
  for (uint8_t x : in) {
    if (z >= 2 && x == 3) {
      z = 0;
      continue;
    }
    o.push_back(x);
    z = x == 0 ? z + 1 : 0;
  }
  return o;
}

// Limits on how large single elements may get, so that runs stay short.
struct EncCfg {
  bool big = true;         // allow extreme values
  bool scaling = true;     // allow scaling list data
  bool ext = true;         // allow extensions
  unsigned id_space = 3;   // ids drawn from this many values
  unsigned vui_permille = 350;
  unsigned large_permille = 0;  // slices with a lot of slice data
  unsigned greedy_permille = 0; // sets and slices that announce far more than they hold
  unsigned giant = 0;      // one slice of a size just around a power of two: how many of the powers
  unsigned id_stride = 0;  // odd: every id in turn, so that all tables fill up
};

class Encoder {
 public:
  Encoder(Choices& c, const EncCfg& cfg) : c(c), d{c}, cfg(cfg) {}

  // ---- primitive coded elements ----
  int64_t U(Node& o, unsigned len, const char* nm, uint64_t v) {
    w.u(len, v);
    o.i(nm, (int64_t)v);
    return (int64_t)v;
  }
  int64_t UE(Node& o, const char* nm, uint64_t v) {
    w.ue(v);
    o.i(nm, (int64_t)v);
    return (int64_t)v;
  }
  int64_t SE(Node& o, const char* nm, int64_t v) {
    w.se(v);
    o.i(nm, v);
    return v;
  }
  int64_t Upush(Node& o, unsigned len, const char* nm, uint64_t v) {
    w.u(len, v);
    o.push(nm, (int64_t)v);
    return (int64_t)v;
  }
  int64_t UEpush(Node& o, const char* nm, uint64_t v) {
    w.ue(v);
    o.push(nm, (int64_t)v);
    return (int64_t)v;
  }
  int64_t SEpush(Node& o, const char* nm, int64_t v) {
    w.se(v);
    o.push(nm, v);
    return v;
  }
  // ---- elements with a limited range ----
  // A sender that breaks the rules: the named element, once in the next unit,
  // takes a value beyond the given limit; the rest is coded accordingly.
  const char* beyond = nullptr;
  unsigned beyond_skip = 0;
  bool beyond_hit = false;
  uint64_t beyond_value = 0;
  uint64_t lim(const char* nm, uint64_t v, uint64_t hi, uint64_t cap = 0xfffffffe) {
    if (!beyond || beyond_hit || hi >= cap || strcmp(beyond, nm)) return v;
    if (beyond_skip) {
      beyond_skip--;
      return v;
    }
    beyond_hit = true;
    switch (c.below(4)) {
      case 0: case 1: v = hi + 1; break;
      case 2: v = hi + 1 + c.below(std::min<uint64_t>(cap - hi, 40)); break;
      default: v = d.val(hi + 1, cap);
    }
    return beyond_value = v;
  }
  uint64_t lim_size(const char* nm, uint64_t v, unsigned mincb) {
    if (!beyond || beyond_hit || strcmp(beyond, nm)) return v;
    beyond_hit = true;
    switch (c.below(mincb > 8 ? 4 : 3)) {
      case 3: v += 8 * (1 + c.below(mincb / 8 - 1)); break;  // no multiple of the smallest block size
      case 0: v = 0; break;                                  // no picture
      case 1: v = 16888 + 8 * d.val(1, 0x1ffff7c0); break;   // beyond any level
      default: v += 1 + c.below(7);                          // no multiple of any block size
    }
    return beyond_value = v;
  }
  uint64_t umax(uint64_t hi) { return cfg.big ? d.val(0, hi) : d.val(0, std::min<uint64_t>(hi, 40)); }
  static unsigned ceil_log2(uint64_t x) {
    unsigned k = 0;
    while ((1ull << k) < x) k++;
    return k;
  }

  // ---- 7.3.3 profile_tier_level ----
  Node profile_info() {
    Node o = Node::Obj();
    U(o, 2, "profile_space", d.flag(100) ? c.below(4) : 0);
    U(o, 1, "tier_flag", d.flag());
    unsigned idc = (unsigned)d.val(0, 13);
    if (d.flag(50)) idc = (unsigned)c.below(32);
    U(o, 5, "profile_idc", idc);
    uint32_t compat = 0;
    if (idc < 32 && d.flag(700)) compat |= 1u << idc;
    if (d.flag(300)) compat |= 1u << c.below(12);
    if (d.flag(100)) compat |= (uint32_t)c.below(1ull << 32);
    Node a = Node::Ints();
    for (int j = 0; j < 32; j++) {
      w.bit((compat >> j) & 1);
      a.iv.push_back((compat >> j) & 1);
    }
    o.set("profile_compatibility_flag", a);
    auto has = [&](unsigned k) { return idc == k || ((compat >> k) & 1); };
    uint64_t fl = c.below(1u << 16);
    auto fb = [&](int k) { return (fl >> k) & 1; };
    U(o, 1, "progressive_source_flag", fb(0));
    U(o, 1, "interlaced_source_flag", fb(1));
    U(o, 1, "non_packed_constraint_flag", fb(2));
    U(o, 1, "frame_only_constraint_flag", fb(3));
    bool resv = d.flag(80);
    auto rv = [&](unsigned bits) -> uint64_t { return resv ? c.below(1ull << bits) : 0; };
    if (has(4) || has(5) || has(6) || has(7) || has(8) || has(9) || has(10) || has(11)) {
      U(o, 1, "max_12bit_constraint_flag", fb(4));
      U(o, 1, "max_10bit_constraint_flag", fb(5));
      U(o, 1, "max_8bit_constraint_flag", fb(6));
      U(o, 1, "max_422chroma_constraint_flag", fb(7));
      U(o, 1, "max_420chroma_constraint_flag", fb(8));
      U(o, 1, "max_monochrome_constraint_flag", fb(9));
      U(o, 1, "intra_constraint_flag", fb(10));
      U(o, 1, "one_picture_only_constraint_flag", fb(11));
      U(o, 1, "lower_bit_rate_constraint_flag", fb(12));
      if (has(5) || has(9) || has(10) || has(11)) {
        U(o, 1, "max_14bit_constraint_flag", fb(13));
        U(o, 33, "reserved_zero_33bits", rv(33));
      } else {
        U(o, 34, "reserved_zero_34bits", rv(34));
      }
    } else if (has(2)) {
      U(o, 7, "reserved_zero_7bits", rv(7));
      U(o, 1, "one_picture_only_constraint_flag", fb(11));
      U(o, 35, "reserved_zero_35bits", rv(35));
    } else {
      U(o, 43, "reserved_zero_43bits", rv(43));
    }
    if (has(1) || has(2) || has(3) || has(4) || has(5) || has(9) || has(11))
      U(o, 1, "inbld_flag", fb(14));
    else
      U(o, 1, "reserved_zero_bit", resv ? fb(15) : 0);
    return o;
  }
  Node ptl(unsigned max_sub_minus1, bool profile = true) {
    Node o = Node::Obj();
    if (profile) o.set("general", profile_info());
    U(o, 8, "general_level_idc", d.flag(200) ? c.below(256) : 30 * d.val(1, 6));
    std::vector<int> pp, lp;
    o.ref("sub_layer_profile_present_flag", Node::kInts);
    o.ref("sub_layer_level_present_flag", Node::kInts);
    for (unsigned i = 0; i < max_sub_minus1; i++) {
      pp.push_back((int)Upush(o, 1, "sub_layer_profile_present_flag", d.flag(300)));
      lp.push_back((int)Upush(o, 1, "sub_layer_level_present_flag", d.flag(400)));
    }
    if (max_sub_minus1 > 0)
      for (unsigned i = max_sub_minus1; i < 8; i++) Upush(o, 2, "reserved_zero_2bits", 0);
    Node sl = Node::List();
    Node levels = Node::Ints();
    for (unsigned i = 0; i < max_sub_minus1; i++) {
      if (pp[i]) sl.kids.push_back(profile_info());
      if (lp[i]) {
        uint64_t l = 30 * d.val(1, 6);
        w.u(8, l);
        levels.iv.push_back((int64_t)l);
      }
    }
    o.set("sub_layer", sl);
    o.set("sub_layer_level_idc", levels);
    return o;
  }

  // ---- E.2.2 / E.2.3 ----
  Node sub_hrd(unsigned i, unsigned cnt, bool sub_pic) {
    Node s = Node::Obj();
    s.i("subLayerId", i);
    s.i("CpbCnt", cnt + 1);
    for (unsigned x = 0; x <= cnt; x++) {
      UEpush(s, "bit_rate_value_minus1", umax(0xfffffffeull));
      UEpush(s, "cpb_size_value_minus1", umax(0xfffffffeull));
      if (sub_pic) {
        UEpush(s, "cpb_size_du_value_minus1", umax(0xfffffffeull));
        UEpush(s, "bit_rate_du_value_minus1", umax(0xfffffffeull));
      }
      Upush(s, 1, "cbr_flag", c.below(2));
    }
    return s;
  }
  struct HrdCommon {
    bool nal = false, vcl = false, sub_pic = false;
    Node all = Node::Obj();
  };
  Node hrd(bool common, unsigned max_sub_minus1, HrdCommon& h) {
    Node o = Node::Obj();
    o.i("commonInfPresentFlag", common);
    if (common) {
      h = HrdCommon();
      h.nal = U(h.all, 1, "nal_hrd_parameters_present_flag", d.flag());
      h.vcl = U(h.all, 1, "vcl_hrd_parameters_present_flag", d.flag());
      if (h.nal || h.vcl) {
        h.sub_pic = U(h.all, 1, "sub_pic_hrd_params_present_flag", d.flag());
        if (h.sub_pic) {
          U(h.all, 8, "tick_divisor_minus2", c.below(256));
          U(h.all, 5, "du_cpb_removal_delay_increment_length_minus1", c.below(32));
          U(h.all, 1, "sub_pic_cpb_params_in_pic_timing_sei_flag", c.below(2));
          U(h.all, 5, "dpb_output_delay_du_length_minus1", c.below(32));
        }
        U(h.all, 4, "bit_rate_scale", c.below(16));
        U(h.all, 4, "cpb_size_scale", c.below(16));
        if (h.sub_pic) U(h.all, 4, "cpb_size_du_scale", c.below(16));
        U(h.all, 5, "initial_cpb_removal_delay_length_minus1", c.below(32));
        U(h.all, 5, "au_cpb_removal_delay_length_minus1", c.below(32));
        U(h.all, 5, "dpb_output_delay_length_minus1", c.below(32));
      }
    }
    // without, they are those of the structure before (E.3.2)
    for (auto& k : h.all.kids) o.kids.push_back(k);
    Node subs = Node::List();
    for (unsigned i = 0; i <= max_sub_minus1; i++) {
      bool general = Upush(o, 1, "fixed_pic_rate_general_flag", d.flag());
      bool cvs = true;
      if (!general) {
        cvs = d.flag();
        w.bit(cvs);
      }
      o.push("fixed_pic_rate_within_cvs_flag", cvs);
      bool low = false;
      if (cvs) {
        UEpush(o, "elemental_duration_in_tc_minus1", umax(2047));
      } else {
        o.push("elemental_duration_in_tc_minus1", 0);
        low = d.flag();
        w.bit(low);
      }
      o.push("low_delay_hrd_flag", low);
      unsigned cnt = 0;
      if (!low) {
        cnt = (unsigned)(d.flag(100) ? c.below(32) : c.below(3));
        w.ue(cnt);
      }
      o.push("cpb_cnt_minus1", cnt);
      for (int k = 0; k < 2; k++) {
        if (k == 0 ? !h.nal : !h.vcl) continue;
        subs.kids.push_back(sub_hrd(i, cnt, h.sub_pic));
      }
    }
    o.set("sub_layer_hrd_parameters_vector", subs);
    return o;
  }

  // ---- 7.3.2.1 VPS ----
  Unit vps() {
    Unit u = begin(K::VPS, 32);
    Node o = Node::Obj();
    u.set_id = (unsigned)U(o, 4, "vps_video_parameter_set_id", pick_id(16));
    U(o, 1, "vps_base_layer_internal_flag", d.flag(900));
    U(o, 1, "vps_base_layer_available_flag", d.flag(900));
    U(o, 6, "vps_max_layers_minus1", d.flag(200) ? c.below(64) : 0);
    unsigned sub = (unsigned)c.below(7);
    U(o, 3, "vps_max_sub_layers_minus1", sub);
    U(o, 1, "vps_temporal_id_nesting_flag", d.flag());
    U(o, 16, "vps_reserved_0xffff_16bits", 0xffff);
    o.set("profile_tier_level", ptl(sub));
    bool oi = U(o, 1, "vps_sub_layer_ordering_info_present_flag", d.flag());
    for (unsigned i = oi ? 0 : sub; i <= sub; i++) {
      UEpush(o, "vps_max_dec_pic_buffering_minus1", c.below(16));
      UEpush(o, "vps_max_num_reorder_pics", c.below(16));
      UEpush(o, "vps_max_latency_increase_plus1", umax(0xfffffffeull));
    }
    unsigned maxl = (unsigned)U(o, 6, "vps_max_layer_id", lim("vps_max_layer_id", d.flag(300) ? c.below(63) : 0, 62, 63));
    unsigned nls = (unsigned)UE(o, "vps_num_layer_sets_minus1",
                                lim("vps_num_layer_sets_minus1",
                                    d.flag(20) && cfg.big ? c.below(1024) : (d.flag(300) ? c.below(5) : 0), 1023, 1100));
    Node incl = Node::List();
    for (unsigned i = 1; i <= nls; i++) {
      Node row = Node::Ints();
      uint64_t bits = c.below(UINT64_MAX);
      for (unsigned j = 0; j <= maxl; j++) {
        w.bit((bits >> j) & 1);
        row.iv.push_back((bits >> j) & 1);
      }
      incl.kids.push_back(row);
    }
    o.set("layer_id_included_flag", incl);
    bool timing = U(o, 1, "vps_timing_info_present_flag", d.flag());
    if (timing) {
      U(o, 32, "vps_num_units_in_tick", d.val(1, 0xffffffffull));
      U(o, 32, "vps_time_scale", d.val(1, 0xffffffffull));
      if (U(o, 1, "vps_poc_proportional_to_timing_flag", d.flag()))
        UE(o, "vps_num_ticks_poc_diff_one_minus1", umax(0xfffffffeull));
      unsigned nh = (unsigned)UE(o, "vps_num_hrd_parameters",
                                 lim("vps_num_hrd_parameters", c.below(std::min(nls + 1, 3u) + 1), nls + 1, nls + 5));
      HrdCommon h;
      Node last;
      for (unsigned i = 0; i < nh; i++) {
        UEpush(o, "hrd_layer_set_idx", c.below(nls + 1));
        bool cprms = true;
        if (i > 0) {
          cprms = d.flag(600);
          w.bit(cprms);
        }
        o.push("cprms_present_flag", cprms);
        last = hrd(cprms, sub, h);
      }
      // the library's VPS state holds a single hrd_parameters(): the last one
      if (nh) o.set("hrd_parameters", last);
    }
    end_mand(u);
    if (U(o, 1, "vps_extension_flag", cfg.ext && d.flag(150))) ext_data();
    u.mand_bits = w.n;  // refined below when extension data follows
    if (ext_len_) u.mand_bits -= ext_len_;
    return finish(u, o, true);
  }

  // ---- 7.3.4 scaling_list_data ----
  Node scaling_list() {
    Node o = Node::Obj();
    Node pm = Node::List(), pd = Node::List(), dc = Node::List(), sl = Node::List();
    for (int s = 0; s < 4; s++) {
      pm.kids.push_back(Node::Ints(std::vector<int64_t>(6, 0)));
      pd.kids.push_back(Node::Ints(std::vector<int64_t>(6, 0)));
      dc.kids.push_back(Node::Ints(std::vector<int64_t>(6, 0)));
      Node l = Node::List();
      for (int m = 0; m < 6; m++) l.kids.push_back(Node::Ints());
      sl.kids.push_back(l);
    }
    unsigned dense = (unsigned)c.below(1000);
    for (unsigned s = 0; s < 4; s++) {
      for (unsigned m = 0; m < 6; m += s == 3 ? 3 : 1) {
        bool mode = d.flag(dense);
        w.bit(mode);
        pm.kids[s].iv[m] = mode;
        if (!mode) {
          unsigned delta = (unsigned)c.below(s == 3 ? m / 3 + 1 : m + 1);
          w.ue(delta);
          pd.kids[s].iv[m] = delta;
        } else {
          int next = 8;
          int n = std::min(64, 1 << (4 + (s << 1)));
          if (s > 1) {
            int x = (int)d.sval(-7, 247);
            w.se(x);
            dc.kids[s - 2].iv[m] = x;
            next = x + 8;
          }
          unsigned mode2 = (unsigned)c.below(3);
          for (int i = 0; i < n; i++) {
            int dl = mode2 == 0 ? 0 : mode2 == 1 ? (int)c.below(5) - 2 : (int)c.below(256) - 128;
            w.se(dl);
            next = (next + dl + 256) % 256;
            sl.kids[s].kids[m].iv.push_back(next);
          }
        }
      }
    }
    o.set("scaling_list_pred_mode_flag", pm);
    o.set("scaling_list_pred_matrix_id_delta", pd);
    o.set("scaling_list_dc_coef_minus8", dc);
    o.set("ScalingList", sl);
    return o;
  }

  // ---- 7.3.7 st_ref_pic_set ----
  Node st_rps(unsigned idx, const std::vector<RpsM>& sets, unsigned num_sets, unsigned max_pics, RpsM& out) {
    Node o = Node::Obj();
    out = RpsM();
    bool inter = false;
    if (idx != 0) {
      inter = d.flag(400);
      U(o, 1, "inter_ref_pic_set_prediction_flag", inter);
    }
    if (inter) {
      unsigned delta_idx = 0;
      if (idx == num_sets) delta_idx = (unsigned)UE(o, "delta_idx_minus1", lim("delta_idx_minus1", c.below(idx), idx - 1));
      if (delta_idx >= idx) delta_idx = (unsigned)c.below(idx);
      const RpsM& ref = sets[idx - (delta_idx + 1)];
      unsigned sign = (unsigned)U(o, 1, "delta_rps_sign", c.below(2));
      unsigned absd = (unsigned)UE(o, "abs_delta_rps_minus1",
                                    lim("abs_delta_rps_minus1", d.flag(100) && cfg.big ? c.below(1000) : d.flag(20) && cfg.big ? 32767 - c.below(2) : c.below(5), 32767, 1 << 28));
      int delta = (1 - 2 * (int)sign) * ((int)absd + 1);
      size_t n = ref.size();
      std::vector<int> used(n + 1), use(n + 1);
      size_t kept = 0;
      // order j: negatives, positives, then the reference picture itself
      for (size_t j = 0; j <= n; j++) {
        int dp = (j < ref.neg.size()   ? ref.neg[j].first
                  : j < n              ? ref.pos[j - ref.neg.size()].first
                                       : 0) + delta;
        used[j] = d.flag(600);
        use[j] = used[j] ? 1 : (int)d.flag(500);
        if (dp < -32768 || dp > 32767) used[j] = use[j] = 0;
        if (use[j] && dp != 0) {
          if (kept >= max_pics) {
            used[j] = use[j] = 0;
          } else {
            kept++;
          }
        }
      }
      for (size_t j = 0; j <= n; j++) {
        w.bit(used[j]);
        o.push("used_by_curr_pic_flag", used[j]);
        if (!used[j]) w.bit(use[j]);
        o.push("use_delta_flag", use[j]);
      }
      // (7-61), (7-62), computed from the set of pictures rather than in place
      std::vector<std::pair<int, int>> all;
      for (size_t j = 0; j <= n; j++) {
        int dp = (j < ref.neg.size()   ? ref.neg[j].first
                  : j < n              ? ref.pos[j - ref.neg.size()].first
                                       : 0) + delta;
        if (use[j] && dp) all.push_back({dp, used[j]});
      }
      std::sort(all.begin(), all.end());
      for (auto& p : all) {
        if (p.first < 0) out.neg.insert(out.neg.begin(), p);
        else out.pos.push_back(p);
      }
      o.i("num_negative_pics", (int64_t)out.neg.size());
      o.i("num_positive_pics", (int64_t)out.pos.size());
    } else {
      unsigned total = (unsigned)c.below(std::min(max_pics, d.flag(150) ? 16u : 4u) + 1);
      unsigned nn = (unsigned)c.below(total + 1);
      unsigned np = total - nn;
      nn = (unsigned)UE(o, "num_negative_pics", lim("num_negative_pics", nn, 15, 40));
      np = (unsigned)UE(o, "num_positive_pics", lim("num_positive_pics", np, 15 - std::min(nn, 15u), 40));
      bool wide = cfg.big && d.flag(80);
      bool far = cfg.big && d.flag(10);   // the last picture as far away as there can be
      auto step = [&]() { return wide ? (int)c.below(2000) : (int)c.below(6); };
      int poc = 0;
      for (unsigned i = 0; i < nn; i++) {
        int s = (int)lim("delta_poc_s0_minus1", (unsigned)(far && i + 1 == nn ? std::max(0, 32767 + poc) : step()), 32767, 1 << 28);
        w.ue((unsigned)s);
        int used = d.flag(700);
        w.bit(used);
        poc -= s + 1;
        out.neg.push_back({poc, used});
      }
      poc = 0;
      for (unsigned i = 0; i < np; i++) {
        int s = (int)lim("delta_poc_s1_minus1", (unsigned)(far && i + 1 == np ? std::max(0, 32766 - poc) : step()), 32767, 1 << 28);
        w.ue((unsigned)s);
        int used = d.flag(700);
        w.bit(used);
        poc += s + 1;
        out.pos.push_back({poc, used});
      }
    }
    Node a = Node::Ints(), b = Node::Ints(), e = Node::Ints(), f = Node::Ints();
    int prev = 0;
    for (auto& p : out.neg) {
      a.iv.push_back(prev - p.first - 1);
      b.iv.push_back(p.second);
      prev = p.first;
    }
    prev = 0;
    for (auto& p : out.pos) {
      e.iv.push_back(p.first - prev - 1);
      f.iv.push_back(p.second);
      prev = p.first;
    }
    o.set("delta_poc_s0_minus1", a);
    o.set("used_by_curr_pic_s0_flag", b);
    o.set("delta_poc_s1_minus1", e);
    o.set("used_by_curr_pic_s1_flag", f);
    return o;
  }

  // ---- E.2.1 VUI ----
  Node vui(unsigned sub) {
    Node o = Node::Obj();
    if (U(o, 1, "aspect_ratio_info_present_flag", d.flag())) {
      if (U(o, 8, "aspect_ratio_idc", d.flag() ? 255 : c.below(17)) == 255) {
        U(o, 16, "sar_width", c.below(65536));
        U(o, 16, "sar_height", c.below(65536));
      }
    }
    if (U(o, 1, "overscan_info_present_flag", d.flag())) U(o, 1, "overscan_appropriate_flag", d.flag());
    if (U(o, 1, "video_signal_type_present_flag", d.flag())) {
      U(o, 3, "video_format", c.below(8));
      U(o, 1, "video_full_range_flag", d.flag());
      if (U(o, 1, "colour_description_present_flag", d.flag())) {
        U(o, 8, "colour_primaries", c.below(256));
        U(o, 8, "transfer_characteristics", c.below(256));
        U(o, 8, "matrix_coeffs", c.below(256));
      }
    }
    if (U(o, 1, "chroma_loc_info_present_flag", d.flag())) {
      UE(o, "chroma_sample_loc_type_top_field", lim("chroma_sample_loc_type_top_field", c.below(6), 5));
      UE(o, "chroma_sample_loc_type_bottom_field", lim("chroma_sample_loc_type_bottom_field", c.below(6), 5));
    }
    U(o, 1, "neutral_chroma_indication_flag", d.flag());
    U(o, 1, "field_seq_flag", d.flag());
    U(o, 1, "frame_field_info_present_flag", d.flag());
    if (U(o, 1, "default_display_window_flag", d.flag())) {
      UE(o, "def_disp_win_left_offset", lim("def_disp_win_left_offset", d.val(0, 16384), 16384));
      UE(o, "def_disp_win_right_offset", lim("def_disp_win_right_offset", d.val(0, 16384), 16384));
      UE(o, "def_disp_win_top_offset", lim("def_disp_win_top_offset", d.val(0, 16384), 16384));
      UE(o, "def_disp_win_bottom_offset", lim("def_disp_win_bottom_offset", d.val(0, 16384), 16384));
    }
    if (U(o, 1, "vui_timing_info_present_flag", d.flag())) {
      U(o, 32, "vui_num_units_in_tick", d.val(1, 0xffffffffull));
      U(o, 32, "vui_time_scale", d.val(1, 0xffffffffull));
      if (U(o, 1, "vui_poc_proportional_to_timing_flag", d.flag()))
        UE(o, "vui_num_ticks_poc_diff_one_minus1", umax(0xfffffffeull));
      if (U(o, 1, "vui_hrd_parameters_present_flag", d.flag())) {
        HrdCommon h;
        o.set("hrd_parameters", hrd(true, sub, h));
      }
    }
    if (U(o, 1, "bitstream_restriction_flag", d.flag())) {
      U(o, 1, "tiles_fixed_structure_flag", d.flag());
      U(o, 1, "motion_vectors_over_pic_boundaries_flag", d.flag());
      U(o, 1, "restricted_ref_pic_lists_flag", d.flag());
      UE(o, "min_spatial_segmentation_idc", lim("min_spatial_segmentation_idc", d.val(0, 4095), 4095));
      UE(o, "max_bytes_per_pic_denom", lim("max_bytes_per_pic_denom", c.below(17), 16));
      UE(o, "max_bits_per_min_cu_denom", lim("max_bits_per_min_cu_denom", c.below(17), 16));
      UE(o, "log2_max_mv_length_horizontal", lim("log2_max_mv_length_horizontal", c.below(17), 16));
      UE(o, "log2_max_mv_length_vertical", lim("log2_max_mv_length_vertical", c.below(16), 15));
    }
    return o;
  }

  Node sps_range() {
    Node x = Node::Obj();
    static const char* f[] = {"transform_skip_rotation_enabled_flag", "transform_skip_context_enabled_flag",
                              "implicit_rdpcm_enabled_flag", "explicit_rdpcm_enabled_flag",
                              "extended_precision_processing_flag", "intra_smoothing_disabled_flag",
                              "high_precision_offsets_enabled_flag", "persistent_rice_adaptation_enabled_flag",
                              "cabac_bypass_alignment_enabled_flag"};
    for (auto* nm : f) U(x, 1, nm, d.flag());
    return x;
  }
  Node sps_ml() {
    Node x = Node::Obj();
    U(x, 1, "inter_view_mv_vert_constraint_flag", d.flag());
    return x;
  }
  Node sps_3d() {
    Node x = Node::Obj();
    Upush(x, 1, "iv_di_mc_enabled_flag", d.flag());
    Upush(x, 1, "iv_mv_scal_enabled_flag", d.flag());
    UE(x, "log2_ivmc_sub_pb_size_minus3", c.below(4));
    U(x, 1, "iv_res_pred_enabled_flag", d.flag());
    U(x, 1, "depth_ref_enabled_flag", d.flag());
    U(x, 1, "vsp_mc_enabled_flag", d.flag());
    U(x, 1, "dbbp_enabled_flag", d.flag());
    Upush(x, 1, "iv_di_mc_enabled_flag", d.flag());
    Upush(x, 1, "iv_mv_scal_enabled_flag", d.flag());
    U(x, 1, "tex_mc_enabled_flag", d.flag());
    UE(x, "log2_texmc_sub_pb_size_minus3", c.below(4));
    U(x, 1, "intra_contour_enabled_flag", d.flag());
    U(x, 1, "intra_dc_only_wedge_enabled_flag", d.flag());
    U(x, 1, "cqt_cu_part_pred_enabled_flag", d.flag());
    U(x, 1, "inter_dc_only_enabled_flag", d.flag());
    U(x, 1, "skip_intra_enabled_flag", d.flag());
    return x;
  }
  Node sps_scc(SpsM& mm) {
    SpsM* m = &mm;
    Node x = Node::Obj();
    U(x, 1, "sps_curr_pic_ref_enabled_flag", d.flag());
    if (U(x, 1, "palette_mode_enabled_flag", d.flag())) {
      UE(x, "palette_max_size", lim("palette_max_size", c.below(65), 64));
      UE(x, "delta_palette_max_predictor_size", lim("delta_palette_max_predictor_size", c.below(129), 128));
      if (U(x, 1, "sps_palette_predictor_initializers_present_flag", d.flag())) {
        unsigned n = (unsigned)(d.flag(100) ? c.below(128) : c.below(5));
        n = (unsigned)UE(x, "sps_num_palette_predictor_initializers_minus1",
                         lim("sps_num_palette_predictor_initializers_minus1", n, 127, 150));
        unsigned comps = m->chroma == 0 ? 1 : 3;
        Node l = Node::List();
        for (unsigned k = 0; k < comps; k++) {
          Node row = Node::Ints();
          unsigned bits = k == 0 ? m->depth_l : m->depth_c;
          for (unsigned i = 0; i <= n; i++) {
            uint64_t v = c.below(1ull << bits);
            w.u(bits, v);
            row.iv.push_back((int64_t)v);
          }
          l.kids.push_back(row);
        }
        x.set("sps_palette_predictor_initializers", l);
      }
    }
    m->mvres = (unsigned)U(x, 2, "motion_vector_resolution_control_idc", c.below(3));
    U(x, 1, "intra_boundary_filtering_disabled_flag", d.flag());
    return x;
  }

  // ---- 7.3.2.2 SPS ----
  Unit sps() {
    Unit u = begin(K::SPS, 33);
    auto m = std::make_shared<SpsM>();
    Node o = Node::Obj();
    U(o, 4, "sps_video_parameter_set_id", pick_id(16));
    unsigned sub = (unsigned)c.below(7);
    U(o, 3, "sps_max_sub_layers_minus1", sub);
    U(o, 1, "sps_temporal_id_nesting_flag", d.flag());
    o.set("profile_tier_level", ptl(sub));
    m->id = u.set_id = (unsigned)UE(o, "sps_seq_parameter_set_id", lim("sps_seq_parameter_set_id", pick_id(16), 15));
    m->chroma = (unsigned)UE(o, "chroma_format_idc", lim("chroma_format_idc", d.flag(600) ? 1 : c.below(4), 3));
    if (m->chroma == 3) m->sep_plane = (unsigned)U(o, 1, "separate_colour_plane_flag", d.flag());
    unsigned log2_min = 3 + (unsigned)c.below(4);
    unsigned log2_ctb = std::max(log2_min, 4 + (unsigned)c.below(3));
    m->ctb = log2_ctb;
    unsigned mincb = 1u << log2_min;
    auto dim = [&]() {
      unsigned maxn = (d.flag(100) && cfg.big ? 16888 : 8192) / mincb;
      if (d.flag(20) && cfg.big) return maxn * mincb;
      uint64_t k = c.below(3);
      if (k == 0) return (unsigned)(1 + c.below(std::min(maxn, 12u))) * mincb;
      if (k == 1) return (unsigned)(1 + c.below(std::min(maxn, 80u))) * mincb;
      return (unsigned)(1 + c.below(maxn)) * mincb;
    };
    m->width = dim();
    m->height = dim();
    UE(o, "pic_width_in_luma_samples", lim_size("pic_width_in_luma_samples", m->width, mincb));
    UE(o, "pic_height_in_luma_samples", lim_size("pic_height_in_luma_samples", m->height, mincb));
    if (U(o, 1, "conformance_window_flag", d.flag())) {
      unsigned sw = m->chroma == 1 || m->chroma == 2 ? 2 : 1, sh = m->chroma == 1 ? 2 : 1;
      unsigned mw = (m->width - 1) / sw, mh = (m->height - 1) / sh;
      unsigned l = (unsigned)d.val(0, mw), t = (unsigned)d.val(0, mh);
      UE(o, "conf_win_left_offset", lim("conf_win_left_offset", l, m->width));
      UE(o, "conf_win_right_offset", lim("conf_win_right_offset", d.val(0, mw - l), m->width));
      UE(o, "conf_win_top_offset", lim("conf_win_top_offset", t, m->height));
      UE(o, "conf_win_bottom_offset", lim("conf_win_bottom_offset", d.val(0, mh - t), m->height));
    }
    m->depth_l = 8 + (unsigned)UE(o, "bit_depth_luma_minus8", lim("bit_depth_luma_minus8", c.below(9), 8, 24));
    m->depth_c = 8 + (unsigned)UE(o, "bit_depth_chroma_minus8", lim("bit_depth_chroma_minus8", c.below(9), 8, 24));
    m->log2_poc = 4 + (unsigned)UE(o, "log2_max_pic_order_cnt_lsb_minus4", lim("log2_max_pic_order_cnt_lsb_minus4", c.below(13), 12, 28));
    bool oi = U(o, 1, "sps_sub_layer_ordering_info_present_flag", d.flag());
    m->max_pics = (unsigned)c.below(16);
    for (unsigned i = oi ? 0 : sub; i <= sub; i++) {
      UEpush(o, "sps_max_dec_pic_buffering_minus1",
             lim("sps_max_dec_pic_buffering_minus1", i == sub ? m->max_pics : c.below(m->max_pics + 1), 15));
      UEpush(o, "sps_max_num_reorder_pics", c.below(m->max_pics + 1));
      UEpush(o, "sps_max_latency_increase_plus1", umax(0xfffffffeull));
    }
    UE(o, "log2_min_luma_coding_block_size_minus3", lim("log2_min_luma_coding_block_size_minus3", log2_min - 3, 3));
    UE(o, "log2_diff_max_min_luma_coding_block_size", lim("log2_diff_max_min_luma_coding_block_size", log2_ctb - log2_min, 3));
    unsigned mintb = 2 + (unsigned)c.below(std::min(log2_min - 1, 5u) - 2 + 1);
    if (mintb >= log2_min) mintb = log2_min - 1;
    UE(o, "log2_min_luma_transform_block_size_minus2", mintb - 2);
    UE(o, "log2_diff_max_min_luma_transform_block_size", c.below(std::min(log2_ctb, 5u) - mintb + 1));
    UE(o, "max_transform_hierarchy_depth_inter", c.below(log2_ctb - mintb + 1));
    UE(o, "max_transform_hierarchy_depth_intra", c.below(log2_ctb - mintb + 1));
    if (U(o, 1, "scaling_list_enabled_flag", d.flag()))
      if (U(o, 1, "sps_scaling_list_data_present_flag", cfg.scaling && d.flag(250)))
        o.set("scaling_list_data", scaling_list());
    U(o, 1, "amp_enabled_flag", d.flag());
    m->sao = U(o, 1, "sample_adaptive_offset_enabled_flag", d.flag(600));
    if (U(o, 1, "pcm_enabled_flag", d.flag())) {
      U(o, 4, "pcm_sample_bit_depth_luma_minus1", c.below(m->depth_l));
      U(o, 4, "pcm_sample_bit_depth_chroma_minus1", c.below(m->depth_c));
      unsigned p = std::min(log2_min, 5u);
      UE(o, "log2_min_pcm_luma_coding_block_size_minus3", p - 3);
      UE(o, "log2_diff_max_min_pcm_luma_coding_block_size", c.below(std::min(log2_ctb, 5u) - p + 1));
      U(o, 1, "pcm_loop_filter_disabled_flag", d.flag());
    }
    unsigned nrps = (unsigned)(d.flag(60) ? c.below(65) : c.below(6));
    nrps = (unsigned)UE(o, "num_short_term_ref_pic_sets", lim("num_short_term_ref_pic_sets", nrps, 64, 70));
    Node rl = Node::List();
    for (unsigned i = 0; i < nrps; i++) {
      RpsM r;
      rl.kids.push_back(st_rps(i, m->rps, nrps, m->max_pics, r));
      m->rps.push_back(r);
    }
    o.set("st_ref_pic_set", rl);
    m->lt = U(o, 1, "long_term_ref_pics_present_flag", d.flag());
    if (m->lt) {
      unsigned n = (unsigned)(d.flag(100) ? c.below(33) : c.below(4));
      n = (unsigned)UE(o, "num_long_term_ref_pics_sps", lim("num_long_term_ref_pics_sps", n, 32, 50));
      o.ref("lt_ref_pic_poc_lsb_sps", Node::kInts);
      o.ref("used_by_curr_pic_lt_sps_flag", Node::kInts);
      for (unsigned i = 0; i < n; i++) {
        Upush(o, m->log2_poc, "lt_ref_pic_poc_lsb_sps", c.below(1ull << m->log2_poc));
        m->lt_used.push_back((int)Upush(o, 1, "used_by_curr_pic_lt_sps_flag", d.flag()));
      }
    }
    m->tmvp = U(o, 1, "sps_temporal_mvp_enabled_flag", d.flag());
    U(o, 1, "strong_intra_smoothing_enabled_flag", d.flag());
    if (U(o, 1, "vui_parameters_present_flag", d.flag(cfg.vui_permille))) o.set("vui_parameters", vui(sub));
    end_mand(u);
    bool ext4 = false;
    if (U(o, 1, "sps_extension_present_flag", cfg.ext && d.flag(300))) {
      bool re = U(o, 1, "sps_range_extension_flag", d.flag());
      bool ml = U(o, 1, "sps_multilayer_extension_flag", d.flag(200));
      bool e3 = U(o, 1, "sps_3d_extension_flag", d.flag(200));
      bool scc = U(o, 1, "sps_scc_extension_flag", d.flag(500));
      ext4 = d.flag(150);
      U(o, 4, "sps_extension_4bits", ext4 ? 1 + c.below(15) : 0);
      if (re) o.set("sps_range_extension", sps_range());
      if (ml) o.set("sps_multilayer_extension", sps_ml());
      if (e3) o.set("sps_3d_extension", sps_3d());
      if (scc) o.set("sps_scc_extension", sps_scc(*m));
    }
    u.mand_bits = w.n;
    if (ext4) {
      ext_data();
      u.mand_bits = w.n - ext_len_;
    }
    u.sps = m;
    return finish(u, o, true);
  }

  // ---- 7.3.2.3 PPS ----
  // The SPS model is what this sender intends the PPS to be used with.
  Unit pps(unsigned sps_id, const SpsM* s) {
    Unit u = begin(K::PPS, 34);
    auto m = std::make_shared<PpsM>();
    Node o = Node::Obj();
    m->id = u.set_id = (unsigned)UE(o, "pps_pic_parameter_set_id", lim("pps_pic_parameter_set_id", pick_id(64), 63));
    m->sps_id = (unsigned)UE(o, "pps_seq_parameter_set_id", sps_id);
    m->dep = U(o, 1, "dependent_slice_segments_enabled_flag", d.flag());
    m->outflag = U(o, 1, "output_flag_present_flag", d.flag());
    m->extra_bits = (unsigned)U(o, 3, "num_extra_slice_header_bits", d.flag(200) ? c.below(8) : 0);
    U(o, 1, "sign_data_hiding_enabled_flag", d.flag());
    m->cabac_init = U(o, 1, "cabac_init_present_flag", d.flag());
    m->l0 = (unsigned)UE(o, "num_ref_idx_l0_default_active_minus1", d.flag(300) ? c.below(15) : c.below(3));
    m->l1 = (unsigned)UE(o, "num_ref_idx_l1_default_active_minus1", d.flag(300) ? c.below(15) : c.below(3));
    int qpbd = 6 * ((s ? (int)s->depth_l : 8) - 8);
    m->init_qp = (int)SE(o, "init_qp_minus26", d.sval(-(26 + qpbd), 25));
    U(o, 1, "constrained_intra_pred_flag", d.flag());
    U(o, 1, "transform_skip_enabled_flag", d.flag());
    if (U(o, 1, "cu_qp_delta_enabled_flag", d.flag())) UE(o, "diff_cu_qp_delta_depth", c.below(4));
    SE(o, "pps_cb_qp_offset", d.sval(-12, 12));
    SE(o, "pps_cr_qp_offset", d.sval(-12, 12));
    m->chroma_qp = U(o, 1, "pps_slice_chroma_qp_offsets_present_flag", d.flag());
    m->wp = U(o, 1, "weighted_pred_flag", d.flag());
    m->wbp = U(o, 1, "weighted_bipred_flag", d.flag());
    U(o, 1, "transquant_bypass_enabled_flag", d.flag());
    m->greedy = cfg.greedy_permille && d.flag(cfg.greedy_permille);
    m->tiles = U(o, 1, "tiles_enabled_flag", m->greedy || d.flag());
    m->wpp = U(o, 1, "entropy_coding_sync_enabled_flag", d.flag());
    if (m->greedy) {
      m->cols = (unsigned)UE(o, "num_tile_columns_minus1", d.val(0, 0xfffffffe));
      m->rows = (unsigned)UE(o, "num_tile_rows_minus1", d.val(0, 0xfffffffe));
      U(o, 1, "uniform_spacing_flag", 1);
      U(o, 1, "loop_filter_across_tiles_enabled_flag", d.flag());
    } else if (m->tiles) {
      unsigned mw = s ? std::min(s->wctb(), 20u) : 4, mh = s ? std::min(s->hctb(), 22u) : 4;
      m->cols = (unsigned)UE(o, "num_tile_columns_minus1", c.below(std::min(mw, d.flag(200) ? 20u : 4u)));
      m->rows = (unsigned)UE(o, "num_tile_rows_minus1", c.below(std::min(mh, d.flag(200) ? 22u : 4u)));
      if (!U(o, 1, "uniform_spacing_flag", d.flag())) {
        o.ref("column_width_minus1", Node::kInts);
        o.ref("row_height_minus1", Node::kInts);
        unsigned wleft = (s ? s->wctb() : 64), hleft = (s ? s->hctb() : 64);
        for (unsigned i = 0; i < m->cols; i++) {
          unsigned room = wleft > (m->cols - i) ? wleft - (m->cols - i) - 1 : 0;
          unsigned v = (unsigned)d.val(0, room);
          UEpush(o, "column_width_minus1", v);
          wleft -= std::min(wleft, v + 1);
        }
        for (unsigned i = 0; i < m->rows; i++) {
          unsigned room = hleft > (m->rows - i) ? hleft - (m->rows - i) - 1 : 0;
          unsigned v = (unsigned)d.val(0, room);
          UEpush(o, "row_height_minus1", v);
          hleft -= std::min(hleft, v + 1);
        }
      }
      U(o, 1, "loop_filter_across_tiles_enabled_flag", d.flag());
    }
    m->lf_slices = U(o, 1, "pps_loop_filter_across_slices_enabled_flag", d.flag(600));
    if (U(o, 1, "deblocking_filter_control_present_flag", d.flag(600))) {
      m->dbk_override = U(o, 1, "deblocking_filter_override_enabled_flag", d.flag());
      m->dbk_disabled = U(o, 1, "pps_deblocking_filter_disabled_flag", d.flag());
      if (!m->dbk_disabled) {
        SE(o, "pps_beta_offset_div2", d.sval(-6, 6));
        SE(o, "pps_tc_offset_div2", d.sval(-6, 6));
      }
    }
    if (U(o, 1, "pps_scaling_list_data_present_flag", cfg.scaling && d.flag(120))) o.set("scaling_list_data", scaling_list());
    m->lists_mod = U(o, 1, "lists_modification_present_flag", d.flag(150));
    UE(o, "log2_parallel_merge_level_minus2", c.below(5));
    m->ext = U(o, 1, "slice_segment_header_extension_present_flag", d.flag(300));
    end_mand(u);
    bool ext4 = false;
    if (U(o, 1, "pps_extension_present_flag", cfg.ext && d.flag(300))) {
      // range and 3D extensions and colour mapping are not implemented by the library
      U(o, 1, "pps_range_extension_flag", 0);
      bool ml = U(o, 1, "pps_multilayer_extension_flag", d.flag());
      U(o, 1, "pps_3d_extension_flag", 0);
      bool scc = U(o, 1, "pps_scc_extension_flag", d.flag(500));
      ext4 = d.flag(150);
      U(o, 4, "pps_extension_4bits", ext4 ? 1 + c.below(15) : 0);
      if (ml) o.set("pps_multilayer_extension", pps_ml());
      if (scc) o.set("pps_scc_extension", pps_scc(*m));
    }
    u.mand_bits = w.n;
    if (ext4) {
      ext_data();
      u.mand_bits = w.n - ext_len_;
    }
    u.pps = m;
    return finish(u, o, true);
  }
  Node pps_scc(PpsM& mm) {
    PpsM* m = &mm;
    Node x = Node::Obj();
    m->curr_pic_ref = U(x, 1, "pps_curr_pic_ref_enabled_flag", d.flag());
    if (U(x, 1, "residual_adaptive_colour_transform_enabled_flag", d.flag())) {
      m->act = U(x, 1, "pps_slice_act_qp_offsets_present_flag", d.flag());
      SE(x, "pps_act_y_qp_offset_plus5", d.sval(-7, 17));
      SE(x, "pps_act_cb_qp_offset_plus5", d.sval(-7, 17));
      SE(x, "pps_act_cr_qp_offset_plus3", d.sval(-9, 15));
    }
    if (U(x, 1, "pps_palette_predictor_initializer_present_flag", d.flag())) {
      unsigned n = (unsigned)(d.flag(100) ? c.below(128) : c.below(4));
      UE(x, "pps_num_palette_predictor_initializer", n);
      if (n > 0) {
        bool mono = U(x, 1, "monochrome_palette_flag", d.flag());
        unsigned lb = 8 + (unsigned)UE(x, "luma_bit_depth_entry_minus8", c.below(9));
        unsigned cb = 8;
        if (!mono) cb = 8 + (unsigned)UE(x, "chroma_bit_depth_entry_minus8", c.below(9));
        Node l = Node::List();
        for (unsigned k = 0; k < (mono ? 1u : 3u); k++) {
          Node row = Node::Ints();
          unsigned bits = k == 0 ? lb : cb;
          for (unsigned i = 0; i < n; i++) {
            uint64_t v = c.below(1ull << bits);
            w.u(bits, v);
            row.iv.push_back((int64_t)v);
          }
          l.kids.push_back(row);
        }
        x.set("pps_palette_predictor_initializers", l);
      }
    }
    return x;
  }
  Node pps_ml() {
    Node x = Node::Obj();
    U(x, 1, "poc_reset_info_present_flag", d.flag());
    if (U(x, 1, "pps_infer_scaling_list_flag", d.flag())) U(x, 6, "pps_scaling_list_ref_layer_id", c.below(63));
    unsigned n = (unsigned)UE(x, "num_ref_loc_offsets", c.below(4));
    for (unsigned i = 0; i < n; i++) {
      Upush(x, 6, "ref_loc_offset_layer_id", c.below(63));
      if (Upush(x, 1, "scaled_ref_layer_offset_present_flag", d.flag())) {
        SEpush(x, "scaled_ref_layer_left_offset", d.sval(-16384, 16383));
        SEpush(x, "scaled_ref_layer_top_offset", d.sval(-16384, 16383));
        SEpush(x, "scaled_ref_layer_right_offset", d.sval(-16384, 16383));
        SEpush(x, "scaled_ref_layer_bottom_offset", d.sval(-16384, 16383));
      }
      if (Upush(x, 1, "ref_region_offset_present_flag", d.flag())) {
        SEpush(x, "ref_region_left_offset", d.sval(-16384, 16383));
        SEpush(x, "ref_region_top_offset", d.sval(-16384, 16383));
        SEpush(x, "ref_region_right_offset", d.sval(-16384, 16383));
        SEpush(x, "ref_region_bottom_offset", d.sval(-16384, 16383));
      }
      if (Upush(x, 1, "resample_phase_set_present_flag", d.flag())) {
        // phase_hor/ver_luma are ue(v) 0..31, chroma ue(v) 0..63 (F.7.3.2.3.5)
        UEpush(x, "phase_hor_luma", c.below(32));
        UEpush(x, "phase_ver_luma", c.below(32));
        UEpush(x, "phase_hor_chroma_plus8", c.below(64));
        UEpush(x, "phase_ver_chroma_plus8", c.below(64));
      }
    }
    U(x, 1, "colour_mapping_enabled_flag", 0);
    return x;
  }

  // ---- 7.3.6.3 pred_weight_table ----
  Node pwt(const SpsM& s, unsigned l0, unsigned l1, bool b) {
    Node o = Node::Obj();
    unsigned cat = s.chroma_array_type();
    UE(o, "luma_log2_weight_denom", c.below(8));
    if (cat) SE(o, "delta_chroma_log2_weight_denom", d.sval(-7, 7));
    for (int L = 0; L < (b ? 2 : 1); L++) {
      unsigned n = (L ? l1 : l0) + 1;
      const char* names[2][6] = {
          {"luma_weight_l0_flag", "chroma_weight_l0_flag", "delta_luma_weight_l0", "luma_offset_l0",
           "delta_chroma_weight_l0", "delta_chroma_offset_l0"},
          {"luma_weight_l1_flag", "chroma_weight_l1_flag", "delta_luma_weight_l1", "luma_offset_l1",
           "delta_chroma_weight_l1", "delta_chroma_offset_l1"}};
      auto& nm = names[L];
      std::vector<int> lf, cf;
      for (unsigned i = 0; i < n; i++) lf.push_back((int)Upush(o, 1, nm[0], d.flag()));
      if (cat)
        for (unsigned i = 0; i < n; i++) cf.push_back((int)Upush(o, 1, nm[1], d.flag()));
      Node cw = Node::List(), co = Node::List();
      for (unsigned i = 0; i < n; i++) {
        if (lf[i]) {
          SEpush(o, nm[2], d.sval(-128, 127));
          SEpush(o, nm[3], d.sval(-128, 127));
        }
        if (cat && cf[i]) {
          Node a = Node::Ints(), bb = Node::Ints();
          for (int j = 0; j < 2; j++) {
            int64_t v = d.sval(-128, 127);
            w.se(v);
            a.iv.push_back(v);
            v = d.sval(-512, 511);
            w.se(v);
            bb.iv.push_back(v);
          }
          cw.kids.push_back(a);
          co.kids.push_back(bb);
        }
      }
      o.set(nm[4], cw);
      o.set(nm[5], co);
    }
    return o;
  }

  // ---- 7.3.6.1 slice_segment_header ----
  Unit slice(const SpsM& s, const PpsM& p) {
    static const unsigned types[] = {1, 0, 1, 19, 20, 21, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18};
    unsigned type = types[c.below(sizeof types / sizeof types[0])];
    Unit u = begin(K::SLICE, type);
    u.pps_id = p.id;
    Node o = Node::Obj();
    bool irap = type >= 16 && type <= 23, idr = type == 19 || type == 20;
    uint64_t nctb = (uint64_t)s.wctb() * s.hctb();
    bool first = nctb <= 1 || d.flag(650);
    U(o, 1, "first_slice_segment_in_pic_flag", first);
    if (irap) U(o, 1, "no_output_of_prior_pics_flag", d.flag());
    UE(o, "slice_pic_parameter_set_id", p.id);
    bool dep = false;
    if (!first) {
      if (p.dep) dep = U(o, 1, "dependent_slice_segment_flag", d.flag());
      U(o, ceil_log2(nctb), "slice_segment_address", 1 + d.val(0, nctb - 2));
    }
    u.dependent = dep;
    if (!dep) {
      o.ref("slice_reserved_flag", Node::kInts);
      for (unsigned i = 0; i < p.extra_bits; i++) Upush(o, 1, "slice_reserved_flag", d.flag());
      // slice_type is decided here, but coded values that constrain it come
      // later, so draw the reference picture set first
      size_t want_type = c.below(3);  // 0: I, 1: P, 2: B
      // pre-draw RPS into a side writer
      BitOut head = w;
      w = BitOut();
      Node rp = Node::Obj();
      int total = p.curr_pic_ref ? 1 : 0;
      bool tmvp = false;
      if (!idr) {
        U(rp, s.log2_poc, "slice_pic_order_cnt_lsb", c.below(1ull << s.log2_poc));
        bool spsf = !s.rps.empty() && d.flag(500);
        U(rp, 1, "short_term_ref_pic_set_sps_flag", spsf);
        if (!spsf) {
          RpsM r;
          rp.set("st_ref_pic_set", st_rps((unsigned)s.rps.size(), s.rps, (unsigned)s.rps.size(), s.max_pics, r));
          total += r.used();
        } else {
          unsigned ix = 0;
          if (s.rps.size() > 1) {
            ix = (unsigned)c.below(s.rps.size());
            U(rp, ceil_log2(s.rps.size()), "short_term_ref_pic_set_idx", ix);
          }
          total += s.rps[ix].used();
        }
        if (s.lt) {
          unsigned ns = 0;
          size_t nl = s.lt_used.size();
          if (nl > 0) ns = (unsigned)UE(rp, "num_long_term_sps", c.below(std::min<size_t>(nl, 3) + 1));
          unsigned np = (unsigned)UE(rp, "num_long_term_pics", c.below(4));
          rp.ref("lt_idx_sps", Node::kInts);
          for (unsigned i = 0; i < ns + np; i++) {
            if (i < ns) {
              unsigned ix = 0;
              if (nl > 1) {
                ix = (unsigned)c.below(nl);
                Upush(rp, ceil_log2(nl), "lt_idx_sps", ix);
              }
              total += s.lt_used[ix];
            } else {
              Upush(rp, s.log2_poc, "poc_lsb_lt", c.below(1ull << s.log2_poc));
              total += (int)Upush(rp, 1, "used_by_curr_pic_lt_flag", d.flag());
            }
            if (Upush(rp, 1, "delta_poc_msb_present_flag", d.flag()))
              UEpush(rp, "delta_poc_msb_cycle_lt", d.val(0, 70000));
          }
        }
        if (s.tmvp) tmvp = U(rp, 1, "slice_temporal_mvp_enabled_flag", d.flag());
      }
      BitOut rpbits = w;
      w = head;
      // legality of P/B, and the parts of the syntax the library implements
      if (irap || total == 0) want_type = 0;
      if (want_type && p.lists_mod && total > 1) want_type = 0;
      bool weighted = (want_type == 1 && p.wp) || (want_type == 2 && p.wbp);
      if (weighted && p.curr_pic_ref) {
        want_type = 0;
        weighted = false;
      }
      unsigned st = want_type == 0 ? 2 : want_type == 1 ? 1 : 0;  // coded slice_type
      UE(o, "slice_type", st);
      if (p.outflag) U(o, 1, "pic_output_flag", d.flag());
      if (s.sep_plane) U(o, 2, "colour_plane_id", c.below(3));
      w.append(rpbits);
      for (auto& k : rp.kids) o.kids.push_back(k);
      bool sao_l = false, sao_c = false;
      if (s.sao) {
        sao_l = U(o, 1, "slice_sao_luma_flag", d.flag());
        if (s.chroma_array_type()) sao_c = U(o, 1, "slice_sao_chroma_flag", d.flag());
      }
      if (st != 2) {
        unsigned l0 = p.l0, l1 = st == 0 ? p.l1 : 0;
        if (U(o, 1, "num_ref_idx_active_override_flag", d.flag())) {
          l0 = (unsigned)(d.flag(200) ? c.below(15) : c.below(3));
          w.ue(l0);
          if (st == 0) {
            l1 = (unsigned)(d.flag(200) ? c.below(15) : c.below(3));
            w.ue(l1);
          }
        }
        // inferred from the PPS when not overridden (7.4.7.1)
        o.i("num_ref_idx_l0_active_minus1", l0);
        if (st == 0) o.i("num_ref_idx_l1_active_minus1", l1);
        if (st == 0) U(o, 1, "mvd_l1_zero_flag", d.flag());
        if (p.cabac_init) U(o, 1, "cabac_init_flag", d.flag());
        if (tmvp) {
          bool from0 = true;
          if (st == 0) {
            from0 = d.flag(500);
            w.bit(from0);
          }
          o.i("collocated_from_l0_flag", from0);
          if ((from0 && l0 > 0) || (!from0 && l1 > 0))
            UE(o, "collocated_ref_idx", c.below((from0 ? l0 : l1) + 1));
        }
        if (weighted) o.set("pred_weight_table", pwt(s, l0, l1, st == 0));
        UE(o, "five_minus_max_num_merge_cand", c.below(5));
        if (s.mvres == 2) U(o, 1, "use_integer_mv_flag", d.flag());
      }
      int lo = -(26 + p.init_qp) - 6 * ((int)s.depth_l - 8), hi = 51 - 26 - p.init_qp;
      if (lo > 0) lo = 0;
      if (hi < 0) hi = 0;
      u.qp_delta = (int)SE(o, "slice_qp_delta", d.sval(lo, hi));
      if (p.chroma_qp) {
        SE(o, "slice_cb_qp_offset", d.sval(-12, 12));
        SE(o, "slice_cr_qp_offset", d.sval(-12, 12));
      }
      if (p.act) {
        SE(o, "slice_act_y_qp_offset", d.sval(-12, 12));
        SE(o, "slice_act_cb_qp_offset", d.sval(-12, 12));
        SE(o, "slice_act_cr_qp_offset", d.sval(-12, 12));
      }
      bool ovr = false;
      if (p.dbk_override) ovr = U(o, 1, "deblocking_filter_override_flag", d.flag());
      bool dis = p.dbk_disabled;
      if (ovr) {
        dis = U(o, 1, "slice_deblocking_filter_disabled_flag", d.flag());
        if (!dis) {
          SE(o, "slice_beta_offset_div2", d.sval(-6, 6));
          SE(o, "slice_tc_offset_div2", d.sval(-6, 6));
        }
      }
      if (p.lf_slices && (sao_l || sao_c || !dis))
        U(o, 1, "slice_loop_filter_across_slices_enabled_flag", d.flag());
    }
    if (p.tiles || p.wpp) {
      uint64_t maxn;
      if (!p.tiles) maxn = s.hctb() - 1;
      else if (!p.wpp) maxn = (uint64_t)(p.cols + 1) * (p.rows + 1) - 1;
      else maxn = (uint64_t)(p.cols + 1) * s.hctb() - 1;
      if (p.greedy) {
        // the range the receiver computes, modulo 2^32, and just a few offsets
        maxn = p.wpp ? (uint32_t)((p.cols + 1) * s.hctb() - 1) : (uint32_t)((p.cols + 1) * (p.rows + 1) - 1);
        w.ue(c.flag() ? maxn : c.below(maxn + 1));
        w.ue(c.below(32));
        for (unsigned i = 0, k = (unsigned)c.below(40); i < k; i++) w.u(8, c.below(256));
        u.syn_bits = u.mand_bits = w.n;
        w.trailing();
        return finish(u, Node(), false);
      }
      unsigned n = (unsigned)(d.flag(120) ? std::min<uint64_t>(maxn, 600) - c.below(std::min<uint64_t>(maxn, 2) + 1)
                                          : c.below(std::min<uint64_t>(maxn, 8) + 1));
      n = (unsigned)UE(o, "num_entry_point_offsets", lim("num_entry_point_offsets", n, maxn, maxn + 60));
      if (n > 0) {
        unsigned len = (unsigned)UE(o, "offset_len_minus1", lim("offset_len_minus1", c.below(32), 31, 40)) + 1;
        bool rnd = d.flag(800);
        for (unsigned i = 0; i < n; i++) Upush(o, len, "entry_point_offset_minus1", rnd ? c.below(1ull << len) : 0);
      }
    }
    if (p.ext) {
      unsigned n = (unsigned)UE(o, "slice_segment_header_extension_length",
                                d.flag(30) ? c.below(257) : c.below(4));
      for (unsigned i = 0; i < n; i++)
        Upush(o, 8, "slice_segment_header_extension_data_byte", c.below(256));
    }
    u.syn_bits = u.mand_bits = w.n;
    w.trailing();  // byte_alignment()
    if (cfg.giant && c.chance(150)) {
      // sizes around what 16, 17, 20 and 24 bits count: one such unit is enough
      static const uint64_t bits[] = {16, 16, 17, 20, 24};
      uint64_t n = (1ull << bits[c.below(cfg.giant)]) - w.b.size() - 12 + c.below(24);
      uint64_t sd = c.below(1ull << 32), style = c.below(4);
      for (uint64_t i = 0; i < n; i++) {
        uint64_t v = splitmix64(sd);
        w.byte((uint8_t)(style == 0 ? v : style == 1 ? v % 200 == 0 : style == 2 ? 0xff : 0x55));
      }
      cfg.giant = 0;
    } else if (cfg.large_permille && d.flag(cfg.large_permille)) {
      // much slice data, from one drawn seed
      unsigned n = (unsigned)d.val(300, 70000);
      uint64_t sd = c.below(1ull << 32), style = c.below(3);
      for (unsigned i = 0; i < n; i++) {
        uint64_t v = splitmix64(sd);
        w.u(8, style == 0 ? v & 255 : style == 1 ? v & 3 : 0);
      }
    } else {
      unsigned n = (unsigned)d.val(0, 60);
      unsigned style = (unsigned)c.below(3);
      for (unsigned i = 0; i < n; i++) w.u(8, style == 0 ? c.below(256) : style == 1 ? c.below(4) : 0);
    }
    w.trailing();
    Node layer = Node::Obj();
    layer.set("slice_segment_header", o);
    return finish(u, layer, false);
  }

  // ---- structures on their own, for the parsers that take them so ----
  static constexpr unsigned kParts = 14;
  Part part(unsigned kind) {
    Part p;
    p.kind = kind;
    w = BitOut();
    auto& a = p.args;
    switch (kind) {
      case 0: p.want = profile_info(); break;
      case 1: {
        a = {d.flag(700), c.below(7)};
        p.want = ptl((unsigned)a[1], a[0] != 0);
        break;
      }
      case 2: {
        HrdCommon h;
        a = {d.flag(900), c.below(7)};
        p.want = hrd(a[0] != 0, (unsigned)a[1], h);
        break;
      }
      case 3:
        a = {c.below(7), 1 + (d.flag(100) ? c.below(32) : c.below(3)), c.below(2)};
        p.want = sub_hrd((unsigned)a[0], (unsigned)a[1] - 1, a[2] != 0);
        break;
      case 4: a = {c.below(7)}; p.want = vui((unsigned)a[0]); break;
      case 5: p.want = scaling_list(); break;
      case 6: p.want = sps_range(); break;
      case 7: p.want = sps_ml(); break;
      case 8: p.want = sps_3d(); break;
      case 9: {
        SpsM m;
        m.chroma = (unsigned)c.below(4);
        m.depth_l = 8 + (unsigned)c.below(9);
        m.depth_c = 8 + (unsigned)c.below(9);
        a = {m.chroma, m.depth_l - 8, m.depth_c - 8};
        p.want = sps_scc(m);
        break;
      }
      case 10: p.want = pps_ml(); break;
      case 11: {
        PpsM m;
        p.want = pps_scc(m);
        break;
      }
      case 12: {
        SpsM m;
        m.chroma = (unsigned)c.below(4);
        a = {m.chroma, d.flag(300) ? c.below(15) : c.below(4), c.below(2), d.flag(300) ? c.below(15) : c.below(4)};
        p.want = pwt(m, (unsigned)a[1], (unsigned)a[3], a[2] != 0);
        break;
      }
      case 13: {
        // one of several sets, which may be predicted from the ones before
        unsigned num = 1 + (unsigned)c.below(5), at = (unsigned)c.below(num + 1);
        unsigned max_pics = (unsigned)c.below(16);
        std::vector<RpsM> sets;
        for (unsigned i = 0; i <= at; i++) {
          RpsM r;
          w = BitOut();
          p.want = st_rps(i, sets, num, max_pics, r);
          sets.push_back(r);
          if (i < at) p.before.push_back({w.b, w.n});
        }
        a = {at, num, 15};
        break;
      }
    }
    p.bits = w.b;
    p.n = w.n;
    return p;
  }

  Unit aud() {
    Unit u = begin(K::AUD, 35);
    Node o = Node::Obj();
    U(o, 3, "pic_type", c.below(3));
    u.mand_bits = w.n;
    return finish(u, o, true);
  }

  // ---- 7.3.5 / annex D ----
  Unit sei() {
    Unit u = begin(K::SEI, 39 + (unsigned)c.below(2));
    static const unsigned kinds[] = {5, 4, 137, 144, 141, 142, 149, 147, 148, 165, 1 /*unknown*/};
    unsigned pt = kinds[c.below(sizeof kinds / sizeof kinds[0])];
    if (pt == 1) {
      static const unsigned unk[] = {0, 1, 3, 6, 129, 132, 136, 181, 200, 255, 256, 300, 1000};
      pt = unk[c.below(13)];
    }
    BitOut head = w;
    w = BitOut();
    Node x = Node::Obj();
    const char* kind = "H265SeiUnknownState";
    size_t payload_bits = 0;
    auto bytes = [&](const char* nm, size_t n) {
      Node a = Node::Ints();
      unsigned style = (unsigned)c.below(3);
      for (size_t i = 0; i < n; i++) {
        uint64_t v = style == 0 ? c.below(256) : style == 1 ? c.below(4) : 0;
        w.u(8, v);
        a.iv.push_back((int64_t)v);
      }
      x.set(nm, a);
    };
    auto U16 = [&](const char* nm) { U(x, 16, nm, d.val(0, 65535)); };
    auto U32 = [&](const char* nm) { U(x, 32, nm, d.val(0, 0xffffffffull)); };
    auto size = [&]() { return (size_t)(d.flag(100) ? 250 + c.below(300) : c.below(20)); };
    switch (pt) {
      case 4:
        kind = "H265SeiUserDataRegisteredItuTT35State";
        if (U(x, 8, "itu_t_t35_country_code", d.flag(300) ? 255 : c.below(256)) == 255)
          U(x, 8, "itu_t_t35_country_code_extension_byte", c.below(256));
        bytes("payload", size());
        break;
      case 5: {
        kind = "H265SeiUserDataUnregisteredState";
        uint64_t a = c.below(UINT64_MAX), b = c.below(UINT64_MAX);
        w.u(64, a);
        w.u(64, b);
        x.i("uuid_iso_iec_11578_1", (int64_t)a);
        x.i("uuid_iso_iec_11578_2", (int64_t)b);
        bytes("payload", size());
        break;
      }
      case 137: {
        kind = "H265SeiMasteringDisplayColourVolumeState";
        for (int k = 0; k < 3; k++) {
          Upush(x, 16, "display_primaries_x", c.below(65536));
          Upush(x, 16, "display_primaries_y", c.below(65536));
        }
        U16("white_point_x");
        U16("white_point_y");
        U32("max_display_mastering_luminance");
        U32("min_display_mastering_luminance");
        break;
      }
      case 144:
        kind = "H265SeiContentLightLevelInfoState";
        U16("max_content_light_level");
        U16("max_pic_average_light_level");
        break;
      case 141:
        kind = "H265SeiKneeFunctionInfoState";
        UE(x, "knee_function_id", umax(0xfffffffeull));
        if (!U(x, 1, "knee_function_cancel_flag", d.flag(200))) {
          U(x, 1, "knee_function_persistence_flag", d.flag());
          U32("input_d_range");
          U32("input_disp_luminance");
          U32("output_d_range");
          U32("output_disp_luminance");
          unsigned n = (unsigned)UE(x, "num_knee_points_minus1", d.flag(50) ? c.below(999) : c.below(5));
          for (unsigned i = 0; i <= n; i++) {
            Upush(x, 10, "input_knee_point", c.below(1000));
            Upush(x, 10, "output_knee_point", c.below(1000));
          }
        }
        break;
      case 142: {
        kind = "H265SeiColourRemappingInfoState";
        UE(x, "colour_remap_id", umax(0xfffffffeull));
        if (!U(x, 1, "colour_remap_cancel_flag", d.flag(200))) {
          U(x, 1, "colour_remap_persistence_flag", d.flag());
          if (U(x, 1, "colour_remap_video_signal_info_present_flag", d.flag())) {
            U(x, 1, "colour_remap_full_range_flag", d.flag());
            U(x, 8, "colour_remap_primaries", c.below(256));
            U(x, 8, "colour_remap_transfer_function", c.below(256));
            U(x, 8, "colour_remap_matrix_coefficients", c.below(256));
          }
          unsigned in = (unsigned)U(x, 8, "colour_remap_input_bit_depth", 8 + c.below(9));
          unsigned out = (unsigned)U(x, 8, "colour_remap_output_bit_depth", 8 + c.below(9));
          auto lut = [&](const char* nn, const char* nc, const char* nt, unsigned db, unsigned tb) {
            Node cv = Node::List(), tv = Node::List();
            unsigned bc = ((db + 7) >> 3) << 3, bt = ((tb + 7) >> 3) << 3;
            for (int k = 0; k < 3; k++) {
              unsigned n = (unsigned)Upush(x, 8, nn, d.flag(500) ? 0 : c.below(33));
              Node a = Node::Ints(), b = Node::Ints();
              if (n > 0)
                for (unsigned i = 0; i <= n; i++) {
                  uint64_t v = c.below(1ull << db);
                  w.u(bc, v);
                  a.iv.push_back((int64_t)v);
                  v = c.below(1ull << tb);
                  w.u(bt, v);
                  b.iv.push_back((int64_t)v);
                }
              cv.kids.push_back(a);
              tv.kids.push_back(b);
            }
            x.set(nc, cv);
            x.set(nt, tv);
          };
          lut("pre_lut_num_val_minus1", "pre_lut_coded_value", "pre_lut_target_value", in, out);
          if (U(x, 1, "colour_remap_matrix_present_flag", d.flag())) {
            U(x, 4, "log2_matrix_denom", c.below(16));
            Node m = Node::List();
            for (int k = 0; k < 3; k++) {
              Node row = Node::Ints();
              for (int i = 0; i < 3; i++) {
                int64_t v = d.sval(-32768, 32767);
                w.se(v);
                row.iv.push_back(v);
              }
              m.kids.push_back(row);
            }
            x.set("colour_remap_coeffs", m);
          }
          lut("post_lut_num_val_minus1", "post_lut_coded_value", "post_lut_target_value", out, out);
        }
        break;
      }
      case 149:
        kind = "H265SeiContentColourVolumeState";
        if (!U(x, 1, "ccv_cancel_flag", d.flag(200))) {
          U(x, 1, "ccv_persistence_flag", d.flag());
          bool a = U(x, 1, "ccv_primaries_present_flag", d.flag());
          bool b = U(x, 1, "ccv_min_luminance_value_present_flag", d.flag());
          bool e = U(x, 1, "ccv_max_luminance_value_present_flag", d.flag());
          bool f = U(x, 1, "ccv_avg_luminance_value_present_flag", d.flag());
          U(x, 2, "ccv_reserved_zero_2bits", 0);
          if (a) {
            for (int k = 0; k < 3; k++) {
              int64_t v = d.sval(-5000000, 5000000);
              w.u(32, (uint64_t)(uint32_t)(int32_t)v);
              x.push("ccv_primaries_x", v);
              v = d.sval(-5000000, 5000000);
              w.u(32, (uint64_t)(uint32_t)(int32_t)v);
              x.push("ccv_primaries_y", v);
            }
          }
          if (b) U32("ccv_min_luminance_value");
          if (e) U32("ccv_max_luminance_value");
          if (f) U32("ccv_avg_luminance_value");
        }
        break;
      case 147:
        kind = "H265SeiAlternativeTransferCharacteristicsState";
        U(x, 8, "preferred_transfer_characteristics", c.below(256));
        break;
      case 148:
        kind = "H265SeiAmbientViewingEnvironmentState";
        U32("ambient_illuminance");
        U16("ambient_light_x");
        U16("ambient_light_y");
        break;
      case 165:
        kind = "H265SeiAlphaChannelInfoState";
        if (!U(x, 1, "alpha_channel_cancel_flag", d.flag(200))) {
          U(x, 3, "alpha_channel_use_idc", c.below(8));
          unsigned bd = (unsigned)U(x, 3, "alpha_channel_bit_depth_minus8", c.below(8)) + 9;
          U(x, bd, "alpha_transparent_value", c.below(1ull << bd));
          U(x, bd, "alpha_opaque_value", c.below(1ull << bd));
          U(x, 1, "alpha_channel_incr_flag", d.flag());
          if (U(x, 1, "alpha_channel_clip_flag", d.flag())) U(x, 1, "alpha_channel_clip_type_flag", d.flag());
        }
        break;
      default:
        bytes("payload", 1 + size());
        break;
    }
    x.set("kind", Node::Str(kind));
    payload_bits = w.n;
    if (w.n % 8) w.trailing();  // payload_bit_equal_to_one, zeros
    BitOut body = w;
    w = head;
    size_t psize = body.n / 8;
    Node o = Node::Obj();
    o.i("payload_type", pt);
    o.i("payload_size", (int64_t)psize);
    for (unsigned t = pt;; t -= 255) {
      w.u(8, std::min(t, 255u));
      if (t < 255) break;
    }
    for (size_t t = psize;; t -= 255) {
      w.u(8, std::min<size_t>(t, 255));
      if (t < 255) break;
    }
    size_t at = w.n;
    w.append(body);
    o.set("payload_state", x);
    u.mand_bits = u.syn_bits = at + payload_bits;
    // further messages, which the library does not look at
    unsigned more = d.flag(150) ? 1 : 0;
    for (unsigned i = 0; i < more; i++) {
      w.u(8, 129);
      unsigned n = (unsigned)c.below(5);
      w.u(8, n);
      for (unsigned k = 0; k < n; k++) w.u(8, c.below(256));
    }
    w.trailing();
    return finish(u, o, false);
  }

  Unit simple() {
    static const struct { K k; unsigned t; } ts[] = {
        {K::EOS, 36}, {K::EOB, 37}, {K::FD, 38}, {K::OTHER, 41}, {K::OTHER, 47}, {K::OTHER, 10},
        {K::OTHER, 15}, {K::OTHER, 22}, {K::OTHER, 24}, {K::OTHER, 31}, {K::OTHER, 44}};
    auto& t = ts[c.below(sizeof ts / sizeof ts[0])];
    Unit u = begin(t.k, t.t);
    if (t.k == K::FD) {
      unsigned n = (unsigned)d.val(0, 30);
      for (unsigned i = 0; i < n; i++) w.u(8, 0xff);
      w.trailing();
    } else if (t.k == K::OTHER) {
      unsigned n = (unsigned)d.val(0, 30);
      unsigned style = (unsigned)c.below(2);
      for (unsigned i = 0; i < n; i++) w.u(8, style ? c.below(256) : c.below(4));
      w.trailing();
    }
    return finish(u, Node(), false);
  }

  Choices& c;
  Draw d;
  EncCfg cfg;

 private:
  unsigned next_id_ = 0;
  unsigned pick_id(unsigned n) {
    if (cfg.id_stride && !d.flag(50)) return (next_id_ += cfg.id_stride) % n;
    if (d.flag(30)) return n - 1;
    return (unsigned)c.below(std::min(n, cfg.id_space));
  }
  void ext_data() {
    size_t at = w.n;
    unsigned n = 1 + (unsigned)c.below(40);
    for (unsigned i = 0; i < n; i++) w.bit((unsigned)c.below(2));
    ext_len_ = w.n - at;
  }
  void end_mand(Unit&) { ext_len_ = 0; }
  Unit begin(K k, unsigned type) {
    beyond_hit = false;
    w = BitOut();
    ext_len_ = 0;
    Unit u;
    u.kind = k;
    u.type = type;
    u.tid = 1 + (unsigned)c.below(7);
    if (k == K::VPS || k == K::SPS || k == K::EOS || k == K::EOB || type >= 16 && type <= 23) u.tid = 1;
    // base layer for everything whose syntax depends on the layer
    u.layer = k == K::OTHER || k == K::SEI || k == K::FD ? (unsigned)(d.flag(150) ? c.below(64) : 0) : 0;
    w.put(1, 0);
    w.put(6, u.type);
    w.put(6, u.layer);
    w.put(3, u.tid);
    u.header.i("forbidden_zero_bit", 0);
    u.header.i("nal_unit_type", u.type);
    u.header.i("nuh_layer_id", u.layer);
    u.header.i("nuh_temporal_id_plus1", u.tid);
    return u;
  }
  Unit finish(Unit& u, const Node& content, bool rbsp_trailing) {
    if (rbsp_trailing) {
      u.syn_bits = w.n;
      w.trailing();
    } else if (u.kind == K::EOS || u.kind == K::EOB || u.kind == K::FD || u.kind == K::OTHER) {
      u.syn_bits = u.mand_bits = 16;
    }
    if ((u.kind == K::SLICE || u.kind == K::OTHER && u.type < 32) && d.flag(120)) {
      unsigned n = 1 + (unsigned)c.below(3);  // cabac_zero_words
      for (unsigned i = 0; i < 2 * n; i++) w.u(8, 0);
    }
    u.beyond = beyond_hit;
    u.raw = w.b;
    u.longs = w.longs;
    u.nal = escape(u.raw);
    Node body = Node::Obj();
    const char* names[] = {"vps", "sps", "pps", "slice_segment_layer", "aud", "sei"};
    const K ks[] = {K::VPS, K::SPS, K::PPS, K::SLICE, K::AUD, K::SEI};
    for (int i = 0; i < 6; i++) body.set(names[i], u.kind == ks[i] ? content : Node());
    u.body = body;
    return u;
  }
  BitOut w;
  size_t ext_len_ = 0;
};

// What a receiver reports for a unit it refuses, or for one with no payload.
inline Node empty_body() {
  Node body = Node::Obj();
  for (auto* n : {"vps", "sps", "pps", "slice_segment_layer", "aud", "sei"}) body.set(n, Node());
  return body;
}

}  // namespace sim
