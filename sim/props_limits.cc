// C23: values beyond their limits are refused, lists have their announced length.
#include "session.h"

namespace sim {
namespace {

// Every limit that is claimed, as an invariant over what is reported or stored.
struct Limits {
  std::string why;
  bool bad(const char* what, int64_t v, const char* limit) {
    char b[160];
    snprintf(b, sizeof b, "%s is %lld (%s)", what, (long long)v, limit);
    if (why.empty()) why = b;
    return false;
  }
  void max(const Node& o, const char* nm, int64_t hi, int64_t lo = 0) {
    const Node* n = o.get(nm);
    if (!n) return;
    auto one = [&](int64_t v) {
      if (v < lo || v > hi) bad(nm, v, v < lo ? "too small" : "too large");
    };
    if (n->kind == Node::kInt) one(n->v);
    for (auto v : n->iv) one(v);
  }
  void entries(const Node& o, const char* nm, int64_t want) {
    const Node* n = o.get(nm);
    if (!n) return;
    int64_t have = (int64_t)(n->kind == Node::kInts ? n->iv.size() : n->kids.size());
    if (have != want) {
      char b[160];
      snprintf(b, sizeof b, "%s has %lld entries, announced are %lld", nm, (long long)have, (long long)want);
      if (why.empty()) why = b;
    }
  }

  void hrd(const Node* h) {
    if (!h || h->null()) return;
    // one entry per sub-layer in every list, and a structure per sub-layer and kind
    const Node* cpb = h->get("cpb_cnt_minus1");
    const Node* subs = h->get("sub_layer_hrd_parameters_vector");
    if (!cpb || !subs) return;
    size_t n = cpb->iv.size();
    for (auto* nm : {"fixed_pic_rate_general_flag", "fixed_pic_rate_within_cvs_flag", "low_delay_hrd_flag"}) entries(*h, nm, (int64_t)n);
    size_t kinds = (size_t)(h->geti("nal_hrd_parameters_present_flag") == 1) + (size_t)(h->geti("vcl_hrd_parameters_present_flag") == 1);
    entries(*h, "sub_layer_hrd_parameters_vector", (int64_t)(n * kinds));
    if (!why.empty()) return;
    for (size_t k = 0; k < subs->kids.size(); k++) {
      const Node& s = subs->kids[k];
      int64_t want = cpb->iv[k / kinds] + 1;
      entries(s, "bit_rate_value_minus1", want);
      entries(s, "cpb_size_value_minus1", want);
      entries(s, "cbr_flag", want);
    }
  }
  void rps(const Node& o, int64_t idx) {
    int64_t neg = o.geti("num_negative_pics"), pos = o.geti("num_positive_pics");
    // a derived set can have one picture more than the one it is derived from
    bool inter = o.geti("inter_ref_pic_set_prediction_flag", 0) == 1;
    max(o, "num_negative_pics", inter ? 16 : 15);
    max(o, "num_positive_pics", inter ? 16 : 15);
    if (o.geti("inter_ref_pic_set_prediction_flag", 0) != 1) {
      if (neg + pos > 15) bad("num_negative_pics + num_positive_pics", neg + pos, "too large");
      max(o, "delta_poc_s0_minus1", 32767);
      max(o, "delta_poc_s1_minus1", 32767);
    }
    max(o, "abs_delta_rps_minus1", 32767);
    if (o.geti("inter_ref_pic_set_prediction_flag", 0) == 1) max(o, "delta_idx_minus1", idx - 1);
    entries(o, "delta_poc_s0_minus1", neg);
    entries(o, "used_by_curr_pic_s0_flag", neg);
    entries(o, "delta_poc_s1_minus1", pos);
    entries(o, "used_by_curr_pic_s1_flag", pos);
  }
  void vps(const Node& o) {
    max(o, "vps_max_layer_id", 62);
    max(o, "vps_num_layer_sets_minus1", 1023);
    max(o, "vps_num_hrd_parameters", o.geti("vps_num_layer_sets_minus1") + 1);
    int64_t subs = o.geti("vps_max_sub_layers_minus1"), n = o.geti("vps_sub_layer_ordering_info_present_flag") ? subs + 1 : 1;
    entries(o, "vps_max_dec_pic_buffering_minus1", n);
    entries(o, "vps_max_num_reorder_pics", n);
    entries(o, "vps_max_latency_increase_plus1", n);
    entries(o, "layer_id_included_flag", o.geti("vps_num_layer_sets_minus1"));
    if (const Node* l = o.get("layer_id_included_flag"))
      for (auto& row : l->kids)
        if ((int64_t)row.iv.size() != o.geti("vps_max_layer_id") + 1) bad("a row of layer_id_included_flag", (int64_t)row.iv.size(), "entries");
    if (o.geti("vps_timing_info_present_flag") == 1) entries(o, "hrd_layer_set_idx", o.geti("vps_num_hrd_parameters"));
    hrd(o.get("hrd_parameters"));
  }
  void sps(const Node& o) {
    max(o, "sps_seq_parameter_set_id", 15);
    max(o, "chroma_format_idc", 3);
    for (auto* nm : {"pic_width_in_luma_samples", "pic_height_in_luma_samples"}) {
      max(o, nm, 16888, 1);
      if (o.geti(nm) % (8 << std::min<int64_t>(o.geti("log2_min_luma_coding_block_size_minus3"), 3))) bad(nm, o.geti(nm), "no multiple of the smallest block size");
    }
    for (auto* nm : {"conf_win_left_offset", "conf_win_right_offset"}) max(o, nm, o.geti("pic_width_in_luma_samples"));
    for (auto* nm : {"conf_win_top_offset", "conf_win_bottom_offset"}) max(o, nm, o.geti("pic_height_in_luma_samples"));
    max(o, "bit_depth_luma_minus8", 8);
    max(o, "bit_depth_chroma_minus8", 8);
    max(o, "log2_max_pic_order_cnt_lsb_minus4", 12);
    max(o, "sps_max_dec_pic_buffering_minus1", 15);
    max(o, "log2_min_luma_coding_block_size_minus3", 3);
    max(o, "log2_diff_max_min_luma_coding_block_size", 3);
    max(o, "num_short_term_ref_pic_sets", 64);
    max(o, "num_long_term_ref_pics_sps", 32);
    int64_t subs = o.geti("sps_max_sub_layers_minus1"), n = o.geti("sps_sub_layer_ordering_info_present_flag") ? subs + 1 : 1;
    entries(o, "sps_max_dec_pic_buffering_minus1", n);
    entries(o, "sps_max_num_reorder_pics", n);
    entries(o, "sps_max_latency_increase_plus1", n);
    entries(o, "st_ref_pic_set", o.geti("num_short_term_ref_pic_sets"));
    entries(o, "lt_ref_pic_poc_lsb_sps", o.geti("num_long_term_ref_pics_sps", 0));
    entries(o, "used_by_curr_pic_lt_sps_flag", o.geti("num_long_term_ref_pics_sps", 0));
    if (const Node* l = o.get("st_ref_pic_set"))
      for (size_t i = 0; i < l->kids.size(); i++) rps(l->kids[i], (int64_t)i);
    const Node* v = o.get("vui_parameters");
    if (v && !v->null()) {
      max(*v, "chroma_sample_loc_type_top_field", 5);
      max(*v, "chroma_sample_loc_type_bottom_field", 5);
      for (auto* nm : {"def_disp_win_left_offset", "def_disp_win_right_offset", "def_disp_win_top_offset", "def_disp_win_bottom_offset"})
        max(*v, nm, 16384);
      max(*v, "min_spatial_segmentation_idc", 4095);
      max(*v, "max_bytes_per_pic_denom", 16);
      max(*v, "max_bits_per_min_cu_denom", 16);
      max(*v, "log2_max_mv_length_horizontal", 16);
      max(*v, "log2_max_mv_length_vertical", 15);
      hrd(v->get("hrd_parameters"));
    }
    const Node* x = o.get("sps_scc_extension");
    if (x && !x->null()) {
      max(*x, "palette_max_size", 64);
      max(*x, "delta_palette_max_predictor_size", 128);
      max(*x, "sps_num_palette_predictor_initializers_minus1", 127);
      const Node* l = x->get("sps_palette_predictor_initializers");
      if (l && x->geti("sps_palette_predictor_initializers_present_flag") == 1) {
        entries(*x, "sps_palette_predictor_initializers", o.geti("chroma_format_idc") == 0 ? 1 : 3);
        for (auto& row : l->kids)
          if ((int64_t)row.iv.size() != x->geti("sps_num_palette_predictor_initializers_minus1") + 1)
            bad("a row of sps_palette_predictor_initializers", (int64_t)row.iv.size(), "entries");
      }
    }
  }
  void pps(const Node& o) {
    max(o, "pps_pic_parameter_set_id", 63);
    if (o.geti("tiles_enabled_flag") == 1 && o.geti("uniform_spacing_flag") == 0) {
      entries(o, "column_width_minus1", o.geti("num_tile_columns_minus1"));
      entries(o, "row_height_minus1", o.geti("num_tile_rows_minus1"));
    }
  }
  void slice(const Node& layer) {
    const Node* h = layer.get("slice_segment_header");
    if (!h || h->null()) return;
    const Node& o = *h;
    max(o, "offset_len_minus1", 31);
    entries(o, "entry_point_offset_minus1", o.geti("num_entry_point_offsets", 0));
    entries(o, "slice_segment_header_extension_data_byte", o.geti("slice_segment_header_extension_length", 0));
    if (o.geti("dependent_slice_segment_flag") == 0) {
      entries(o, "slice_reserved_flag", o.geti("num_extra_slice_header_bits"));
      const Node* s = o.get("st_ref_pic_set");
      if (s && !s->null()) rps(*s, o.geti("num_short_term_ref_pic_sets"));
      int64_t lt = o.geti("num_long_term_pics", 0), lts = o.geti("num_long_term_sps", 0);
      entries(o, "poc_lsb_lt", lt);
      entries(o, "used_by_curr_pic_lt_flag", lt);
      entries(o, "delta_poc_msb_present_flag", lt + lts);
      // num_entry_point_offsets never exceeds what the active sets allow: see strange units
    }
  }
  void payload(const Node& pay) {
    auto at = [&](const char* nm) -> const Node* {
      const Node* n = pay.get(nm);
      return n && !n->null() ? n : nullptr;
    };
    if (auto* n = at("vps")) vps(*n);
    if (auto* n = at("sps")) sps(*n);
    if (auto* n = at("pps")) pps(*n);
    if (auto* n = at("slice_segment_layer")) slice(*n);
  }
};

struct Element {
  K k;
  const char* name;
};
const Element elements[] = {
    {K::VPS, "vps_max_layer_id"}, {K::VPS, "vps_num_layer_sets_minus1"}, {K::VPS, "vps_num_hrd_parameters"},
    {K::SPS, "sps_seq_parameter_set_id"}, {K::SPS, "chroma_format_idc"}, {K::SPS, "pic_width_in_luma_samples"},
    {K::SPS, "pic_height_in_luma_samples"}, {K::SPS, "conf_win_left_offset"}, {K::SPS, "conf_win_right_offset"},
    {K::SPS, "conf_win_top_offset"}, {K::SPS, "conf_win_bottom_offset"}, {K::SPS, "bit_depth_luma_minus8"},
    {K::SPS, "bit_depth_chroma_minus8"}, {K::SPS, "log2_max_pic_order_cnt_lsb_minus4"},
    {K::SPS, "sps_max_dec_pic_buffering_minus1"}, {K::SPS, "log2_min_luma_coding_block_size_minus3"},
    {K::SPS, "log2_diff_max_min_luma_coding_block_size"}, {K::SPS, "num_short_term_ref_pic_sets"},
    {K::SPS, "num_long_term_ref_pics_sps"}, {K::SPS, "num_negative_pics"}, {K::SPS, "num_positive_pics"},
    {K::SPS, "delta_poc_s0_minus1"}, {K::SPS, "delta_poc_s1_minus1"}, {K::SPS, "abs_delta_rps_minus1"},
    {K::SPS, "chroma_sample_loc_type_top_field"}, {K::SPS, "chroma_sample_loc_type_bottom_field"},
    {K::SPS, "def_disp_win_left_offset"}, {K::SPS, "def_disp_win_right_offset"}, {K::SPS, "def_disp_win_top_offset"},
    {K::SPS, "def_disp_win_bottom_offset"}, {K::SPS, "min_spatial_segmentation_idc"}, {K::SPS, "max_bytes_per_pic_denom"},
    {K::SPS, "max_bits_per_min_cu_denom"}, {K::SPS, "log2_max_mv_length_horizontal"}, {K::SPS, "log2_max_mv_length_vertical"},
    {K::SPS, "palette_max_size"}, {K::SPS, "delta_palette_max_predictor_size"},
    {K::SPS, "sps_num_palette_predictor_initializers_minus1"},
    {K::PPS, "pps_pic_parameter_set_id"},
    {K::SLICE, "num_entry_point_offsets"}, {K::SLICE, "offset_len_minus1"}, {K::SLICE, "delta_idx_minus1"},
    {K::SLICE, "num_negative_pics"}, {K::SLICE, "num_positive_pics"}, {K::SLICE, "delta_poc_s0_minus1"},
    {K::SLICE, "delta_poc_s1_minus1"}, {K::SLICE, "abs_delta_rps_minus1"},
};

}  // namespace

void prop_C23(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SenderCfg sc = draw_sender_cfg(r);
  sc.enc.vui_permille = std::max(sc.enc.vui_permille, 500u);
  Sender s(r, sc);
  State st;
  static const unsigned lv[] = {0, 3, 10, 40};
  unsigned hostile = lv[c.below(4)], p_damage = (unsigned)c.below(300);
  unsigned rounds = 6 + (unsigned)c.below(thorough ? 50 : 16);
  auto judge = [&](const Result& q) {
    auto look = [&](const Node& pay, const char* where) {
      Limits l;
      l.payload(pay);
      if (!l.why.empty()) r.fail("limit", "%s: %s", where, l.why.c_str());
    };
    for (auto& rep : q.reps())
      if (!rep.null) look(rep.pay, "reported");
  };
  uint64_t stored = 0;
  std::map<const void*, std::shared_ptr<const void>> seen;   // looked at already
  auto judge_state = [&] {
    auto each = [&](auto& sets, const char* kind, auto check) {
      for (auto& x : sets) {
        if (!x.second || !seen.emplace(x.second.get(), x.second).second) continue;
        Limits l;
        check(l, tree_of(*x.second));
        if (!l.why.empty()) r.fail("limit", "stored %s %u: %s", kind, x.first, l.why.c_str());
        stored++;
      }
    };
    each(st.vps, "vps", [](Limits& l, const Node& n) { l.vps(n); });
    each(st.sps, "sps", [](Limits& l, const Node& n) { l.sps(n); });
    each(st.pps, "pps", [](Limits& l, const Node& n) { l.pps(n); });
    if (st.vps.size() > 16 || st.sps.size() > 16 || st.pps.size() > 64)
      r.fail("limit", "the session holds %zu VPSs, %zu SPSs and %zu PPSs", st.vps.size(), st.sps.size(), st.pps.size());
  };
  for (unsigned k = 0; k < rounds; k++) {
    SpanGuard g(c);
    // what a well-behaved sender delivers, or hostile or damaged units
    {
      g_hostile.c = &c;
      g_hostile.permille = k < 3 || c.flag() ? 0 : hostile;
      bool wild = g_hostile.permille > 0;
      std::vector<UP> us;
      std::vector<Bytes> ns;
      for (unsigned i = 0, n = 1 + (unsigned)c.below(3); i < n; i++) {
        us.push_back(s.next());
        ns.push_back(us.back()->nal);
        if (k > 2 && c.chance(p_damage)) r.fault(damage(r, ns.back(), c.chance(900)));
      }
      g_hostile.permille = 0;
      PackCfg pc;
      for (auto& b : ns)
        if (b.size() <= 3) pc.w_fu = 0;
      if (wild) r.count("units of a hostile sender", us.size());
      for (auto& p : packetise(r, &s, us, ns, pc)) {
        Result q;
        scribble_stack(g_meter.fill + k);
        deliver(p.d, &st, &q);
        r.evh("delivery", q.tree().hash());
        // units that hostile elements make ambiguous are judged by their limits only
        if (!q.null()) judge(q);
        r.count("deliveries");
      }
      judge_state();
      if (wild) {
        // the sender's own idea of its sets no longer holds
        s.sps.clear();
        s.pps.clear();
        s.vps.clear();
      }
    }
    // units that hold one element beyond its limits, everything else being legal
    for (int tries = 0; tries < 3; tries++) {
      SpanGuard g2(c);
      const Element& e = elements[c.below(std::size(elements))];
      UP u = s.strange(e.k, e.name, c.chance(250) ? (unsigned)c.below(6) : 0);
      if (!u || u->nal.size() > 60000) continue;
      if (u->kind == K::SLICE) {
        auto p = s.by_uid(u->pps_uid), q = s.by_uid(u->sps_uid);
        std::string w;
        // the sets must be there as they were when the slice was coded
        if (!p || !q || !st.pps.count(p->set_id) || !st.sps.count(q->set_id) || p->pps->sps_id != q->set_id ||
            !match(*p->body.get("pps"), tree_of(*st.pps[p->set_id]), "", &w) || !match(*q->body.get("sps"), tree_of(*st.sps[q->set_id]), "", &w))
          continue;
      }
      r.fault("element beyond its limits");
      r.count(e.name);
      // mostly by identity, sometimes by content
      bool full = c.chance(100);
      Node before = full ? state_tree(st) : Node();
      auto vps = st.vps;
      auto sps = st.sps;
      auto pps = st.pps;
      PackCfg pc;
      std::vector<UP> us{u};
      std::vector<Bytes> ns{u->nal};
      auto ps = packetise(r, nullptr, us, ns, pc);
      for (auto& p : ps) {
        Result q;
        scribble_stack(g_meter.fill + k);
        deliver(p.d, &st, &q);
        r.evh("beyond", q.tree().hash());
        std::string why;
        static const char* bn[] = {"vps", "sps", "pps", "slice_segment_layer"};
        for (auto& rep : q.reps())
          for (auto* b : bn) {
            const Node* n = rep.null ? nullptr : rep.pay.get(b);
            if (n && !n->null())
              r.fail("beyond-accepted", "a %s with %s beyond its limits is reported as decoded over %s", kname(u->kind), e.name, cname(p.d.car));
          }
        // replaced by an equal one is no change
        auto old_sets = [&] {
          State old;
          old.vps = vps;
          old.sps = sps;
          old.pps = pps;
          return state_tree(old);
        };
        bool same_sets = full ? same(before, state_tree(st), "state", &why)
                              : (st.vps == vps && st.sps == sps && st.pps == pps) || same(old_sets(), state_tree(st), "state", &why);
        if (!same_sets)
          r.fail("beyond-stored", "a %s with %s beyond its limits changes the stored sets: %s", kname(u->kind), e.name, why.c_str());
      }
      r.state(mix(hash_bytes(e.name, strlen(e.name)), u->raw.size()));
    }
    r.st.sim_time += 1000;
  }
  r.count("stored sets looked at", stored);
}

}  // namespace sim
