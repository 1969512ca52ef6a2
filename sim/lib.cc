#define SIM_VISIT_IMPL
#include "lib.h"

#include <stdlib.h>

namespace sim {

const char* cname(Car c) {
  static const char* n[] = {"start-code", "length-prefix", "unit", "unescaped", "rtp", "hvcC", "payload", "part"};
  return n[(int)c];
}

Node Result::tree() const {
  Node o = Node::Obj();
  if (bs) {
    Node l = Node::List();
    for (auto& u : bs->nal_units) l.kids.push_back(to_node(u));
    o.set("nal_units", std::move(l));
  }
  if (nu) o.set("nal_unit", to_node(*nu));
  if (rtp) o.set("rtp", to_node(*rtp));
  if (box) o.set("hvcc", to_node(*box));
  return o;
}

Rep rep_of(const hn::H265NalUnitParser::NalUnitState* u) {
  Rep r;
  if (!u) return r;
  r.null = false;
  r.meta = true;
  r.off = u->offset;
  r.len = u->length;
  r.plen = u->parsed_length;
  if (u->checksum) {
    r.has_sum = true;
    r.sum = u->checksum->GetPrintableChecksum();
  }
  if (u->nal_unit_header) r.hdr = to_node(*u->nal_unit_header);
  if (u->nal_unit_payload) r.pay = to_node(*u->nal_unit_payload);
  return r;
}

std::vector<Rep> Result::reps() const {
  std::vector<Rep> v;
  if (bs)
    for (auto& u : bs->nal_units) v.push_back(rep_of(u.get()));
  if (nu) {
    v.push_back(rep_of(nu.get()));
    if (parts) v.back().meta = v.back().has_sum = false;
  }
  if (box)
    for (auto& a : box->nalUnit)
      for (auto& u : a) v.push_back(rep_of(u.get()));
  if (rtp) {
    if (rtp->rtp_single) {
      Rep r;
      r.null = false;
      if (rtp->rtp_single->nal_unit_header) r.hdr = to_node(*rtp->rtp_single->nal_unit_header);
      if (rtp->rtp_single->nal_unit_payload) r.pay = to_node(*rtp->rtp_single->nal_unit_payload);
      v.push_back(std::move(r));
    }
    if (rtp->rtp_ap) {
      auto& ap = *rtp->rtp_ap;
      for (size_t i = 0; i < ap.nal_unit_headers.size() || i < ap.nal_unit_payloads.size(); i++) {
        Rep r;
        r.null = false;
        if (i < ap.nal_unit_sizes.size()) r.len = ap.nal_unit_sizes[i];
        if (i < ap.nal_unit_headers.size() && ap.nal_unit_headers[i]) r.hdr = to_node(*ap.nal_unit_headers[i]);
        if (i < ap.nal_unit_payloads.size() && ap.nal_unit_payloads[i]) r.pay = to_node(*ap.nal_unit_payloads[i]);
        v.push_back(std::move(r));
      }
    }
    if (rtp->rtp_fu) {
      auto& fu = *rtp->rtp_fu;
      Rep r;
      r.null = false;
      r.from_fu = true;
      if (fu.header) r.hdr = to_node(*fu.header);
      if (fu.nal_unit_payload) r.pay = to_node(*fu.nal_unit_payload);
      v.push_back(std::move(r));
    }
  }
  return v;
}

namespace {
struct Mem {
  char* p = nullptr;
  size_t n = 0;
  FILE* f;
  Mem() { f = open_memstream(&p, &n); }
  std::string take() {
    fclose(f);
    std::string s(p, n);
    free(p);
    return s;
  }
};
}  // namespace

std::string dump_unit(const hn::H265NalUnitParser::NalUnitState& u, const Opt& opt, int indent) {
  Mem m;
  u.fdump(m.f, indent, opt);
  return m.take();
}

std::string Result::dump(const Opt& opt, int indent) const {
  Mem m;
  if (bs)
    for (auto& u : bs->nal_units) {
      u->fdump(m.f, indent, opt);
      fprintf(m.f, "\n");
    }
  if (nu) nu->fdump(m.f, indent, opt);
  if (rtp) rtp->fdump(m.f, indent, opt);
  if (box) box->fdump(m.f, indent, opt);
  return m.take();
}

namespace {
// What an application does that takes packets or units apart on its own.
std::unique_ptr<hn::H265RtpParser::RtpState> packet_parts(const uint8_t* p, size_t n, State* st) {
  auto h = hn::H265NalUnitHeaderParser::ParseNalUnitHeader(p, n);
  if (!h) return nullptr;
  auto o = std::make_unique<hn::H265RtpParser::RtpState>();
  unsigned t = h->nal_unit_type;
  o->nal_unit_header = std::move(h);
  if (t < hn::AP && !(o->rtp_single = hn::H265RtpSingleParser::ParseRtpSingle(p, n, st))) return nullptr;
  if (t == hn::AP && !(o->rtp_ap = hn::H265RtpApParser::ParseRtpAp(p, n, st))) return nullptr;
  if (t == hn::FU && !(o->rtp_fu = hn::H265RtpFuParser::ParseRtpFu(p, n, st))) return nullptr;
  return o;
}

std::unique_ptr<hn::H265NalUnitParser::NalUnitState> unit_parts(const uint8_t* p, size_t n, State* st, bool part) {
  auto h = hn::H265NalUnitHeaderParser::ParseNalUnitHeader(p, n);
  if (!h) return nullptr;
  unsigned t = h->nal_unit_type;
  auto o = std::make_unique<hn::H265NalUnitParser::NalUnitState>();
  o->nal_unit_header = std::move(h);
  p += 2;
  n -= 2;
  if (!part) {
    o->nal_unit_payload = hn::H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, t, st);
    return o;
  }
  auto y = std::make_unique<hn::H265NalUnitPayloadParser::NalUnitPayloadState>();
  if (is_slice_type(t)) {
    y->slice_segment_layer = hn::H265SliceSegmentLayerParser::ParseSliceSegmentLayer(p, n, t, st);
  } else if (t == hn::VPS_NUT) {
    if ((y->vps = hn::H265VpsParser::ParseVps(p, n))) st->vps[y->vps->vps_video_parameter_set_id] = y->vps;
  } else if (t == hn::SPS_NUT) {
    if ((y->sps = hn::H265SpsParser::ParseSps(p, n))) st->sps[y->sps->sps_seq_parameter_set_id] = y->sps;
  } else if (t == hn::PPS_NUT) {
    if ((y->pps = hn::H265PpsParser::ParsePps(p, n))) st->pps[y->pps->pps_pic_parameter_set_id] = y->pps;
  } else if (t == hn::AUD_NUT) {
    y->aud = hn::H265AudParser::ParseAud(p, n);
  } else if (t == hn::PREFIX_SEI_NUT || t == hn::SUFFIX_SEI_NUT) {
    y->sei = hn::H265SeiMessageParser::ParseSei(p, n);
  }
  o->nal_unit_payload = std::move(y);
  return o;
}
}  // namespace

bool deliver(Car car, unsigned width, const uint8_t* p, size_t n, State* st, const Opt& opt, bool own_state, Result* out) {
  out->car = car;
  switch (car) {
    case Car::ANNEXB:
      if (own_state)
        out->bs = hn::H265BitstreamParser::ParseBitstream(p, n, opt);
      else
        out->bs = hn::H265BitstreamParser::ParseBitstream(p, n, st, opt);
      break;
    case Car::LEN:
      if (own_state)
        out->bs = hn::H265BitstreamParser::ParseBitstreamNALULength(p, n, width, opt);
      else
        out->bs = hn::H265BitstreamParser::ParseBitstreamNALULength(p, n, width, st, opt);
      break;
    case Car::UNIT:
      out->nu = hn::H265NalUnitParser::ParseNalUnit(p, n, st, opt);
      break;
    case Car::UNESC:
      out->nu = hn::H265NalUnitParser::ParseNalUnitUnescaped(p, n, st, opt);
      break;
    case Car::RTP:
      if (width == 1)
        out->rtp = packet_parts(p, n, st);
      else
        out->rtp = hn::H265RtpParser::ParseRtp(p, n, st);
      break;
    case Car::BODY:
    case Car::PART:
      out->parts = true;
      out->nu = unit_parts(p, n, st, car == Car::PART);
      break;
    case Car::HVCC:
      out->box = hn::H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, opt);
      break;
  }
  return true;
}

bool deliver(const Delivery& d, State* st, Result* out) {
  size_t n = d.buf.size();
  uint8_t* p = static_cast<uint8_t*>(malloc(n));
  if (n) memcpy(p, d.buf.data(), n);
  deliver(d.car, d.width, p, n, st, d.opt, d.own_state, out);
  bool same = n == 0 || !memcmp(p, d.buf.data(), n);
  // the caller reuses its buffer straight away
  memset(p, 0xa5, n);
  free(p);
  return same;
}

Node state_tree(const State& st) {
  Node o = Node::Obj();
  o.set("vps", to_node(st.vps));
  o.set("sps", to_node(st.sps));
  o.set("pps", to_node(st.pps));
  return o;
}

Node ref_header(const uint8_t* p) {
  Node o = Node::Obj();
  o.i("forbidden_zero_bit", p[0] >> 7);
  o.i("nal_unit_type", (p[0] >> 1) & 63);
  o.i("nuh_layer_id", ((p[0] & 1) << 5) | (p[1] >> 3));
  o.i("nuh_temporal_id_plus1", p[1] & 7);
  return o;
}

Node tree_of(const hn::H265VpsParser::VpsState& x) { return to_node(x); }
Node tree_of(const hn::H265SpsParser::SpsState& x) { return to_node(x); }
Node tree_of(const hn::H265PpsParser::PpsState& x) { return to_node(x); }
Node tree_of(const hn::H265NalUnitPayloadParser::NalUnitPayloadState& x) { return to_node(x); }
Node tree_of(const hn::H265NalUnitHeaderParser::NalUnitHeaderState& x) { return to_node(x); }

namespace {
template <class T>
Node opt_tree(const T& x) {
  return x ? to_node(*x) : Node();
}
using RpsVec = std::vector<std::unique_ptr<hn::H265StRefPicSetParser::StRefPicSetState>>;

// `in...` is either a pointer and a length or a bit reader.
template <class... In>
Node by_kind(unsigned kind, const std::vector<uint64_t>& a, const RpsVec* sets, In... in) {
  auto u = [&](size_t i) { return (uint32_t)a[i]; };
  switch (kind) {
    case 0: return opt_tree(hn::H265ProfileInfoParser::ParseProfileInfo(in...));
    case 1: return opt_tree(hn::H265ProfileTierLevelParser::ParseProfileTierLevel(in..., a[0] != 0, u(1)));
    case 2: return opt_tree(hn::H265HrdParametersParser::ParseHrdParameters(in..., u(0), u(1)));
    case 3: return opt_tree(hn::H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(in..., u(0), u(1), u(2)));
    case 4: return opt_tree(hn::H265VuiParametersParser::ParseVuiParameters(in..., u(0)));
    case 5: return opt_tree(hn::H265ScalingListDataParser::ParseScalingListData(in...));
    case 6: return opt_tree(hn::H265SpsRangeExtensionParser::ParseSpsRangeExtension(in...));
    case 7: return opt_tree(hn::H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(in...));
    case 8: return opt_tree(hn::H265Sps3dExtensionParser::ParseSps3dExtension(in...));
    case 9: return opt_tree(hn::H265SpsSccExtensionParser::ParseSpsSccExtension(in..., u(0), u(1), u(2)));
    case 10: return opt_tree(hn::H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(in...));
    case 11: return opt_tree(hn::H265PpsSccExtensionParser::ParsePpsSccExtension(in...));
    case 12: return opt_tree(hn::H265PredWeightTableParser::ParsePredWeightTable(in..., u(0), u(1), a[2] != 0, u(3)));
    default: return opt_tree(hn::H265StRefPicSetParser::ParseStRefPicSet(in..., u(0), u(1), sets, u(2)));
  }
}

RpsVec sets_before(const std::vector<std::pair<Bytes, size_t>>& before, uint64_t num) {
  RpsVec v;
  for (auto& b : before) {
    hn::BitBuffer bb(b.first.data(), b.first.size());
    auto x = hn::H265StRefPicSetParser::ParseStRefPicSet(&bb, (uint32_t)v.size(), (uint32_t)num, &v, 15);
    if (!x) break;
    v.push_back(std::move(x));
  }
  return v;
}
struct Exact {
  uint8_t* p;
  explicit Exact(const Bytes& b) : p(static_cast<uint8_t*>(malloc(b.size()))) {
    if (b.size()) memcpy(p, b.data(), b.size());
  }
  ~Exact() { free(p); }
};
}  // namespace

const char* part_name(unsigned kind) {
  static const char* n[] = {"profile", "profile_tier_level", "hrd_parameters", "sub_layer_hrd_parameters", "vui_parameters",
                            "scaling_list_data", "sps_range_extension", "sps_multilayer_extension", "sps_3d_extension",
                            "sps_scc_extension", "pps_multilayer_extension", "pps_scc_extension", "pred_weight_table",
                            "st_ref_pic_set"};
  return n[kind];
}

Node read_part(unsigned kind, const std::vector<uint64_t>& a, const Bytes& bytes,
               const std::vector<std::pair<Bytes, size_t>>& before) {
  RpsVec v = sets_before(before, kind == 13 ? a[1] : 0);
  if (v.size() != before.size()) return Node::Str("an earlier set is refused");
  Exact e(bytes);
  return by_kind(kind, a, &v, (const uint8_t*)e.p, bytes.size());
}

Node read_part(unsigned kind, const std::vector<uint64_t>& a, const Bytes& bits, size_t at,
               const std::vector<std::pair<Bytes, size_t>>& before, size_t* end) {
  RpsVec v = sets_before(before, kind == 13 ? a[1] : 0);
  if (v.size() != before.size()) return Node::Str("an earlier set is refused");
  Exact e(bits);
  hn::BitBuffer bb(e.p, bits.size());
  bb.Seek(at / 8, at % 8);
  Node t = by_kind(kind, a, &v, &bb);
  size_t y = 0, b = 0;
  bb.GetCurrentOffset(&y, &b);
  *end = y * 8 + b;
  return t;
}

Node read_slice_header(const Bytes& bytes, unsigned type, State* st, bool reader) {
  Exact e(bytes);
  if (!reader) return opt_tree(hn::H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(e.p, bytes.size(), type, st));
  Bytes un = unescape(bytes);
  Exact f(un);
  hn::BitBuffer bb(f.p, un.size());
  return opt_tree(hn::H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&bb, type, st));
}

}  // namespace sim
