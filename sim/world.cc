#include "world.h"

#include <algorithm>

namespace sim {

bool compatible(const PpsM& p, const SpsM& s) {
  return (!p.tiles || p.greedy || (p.cols < s.wctb() && p.rows < s.hctb())) &&
         p.init_qp >= -(26 + 6 * ((int)s.depth_l - 8));
}

// ---------------------------------------------------------------- sender
SenderCfg draw_sender_cfg(Run& r) {
  Choices& c = r.ch;
  SenderCfg s;
  static const unsigned spaces[] = {2, 1, 3, 4, 16, 64};
  s.enc.id_space = spaces[c.below(6)];
  s.enc.big = !c.chance(250);
  s.enc.scaling = !c.chance(300);
  s.enc.ext = !c.chance(300);
  s.enc.vui_permille = c.chance(300) ? 0 : 350;
  s.enc.large_permille = c.chance(150) ? 60 : 0;
  auto tweak = [&](unsigned& w) {
    switch (c.below(6)) {
      case 1: w = 0; break;
      case 2: w *= 3; break;
      default: break;
    }
  };
  tweak(s.w_vps);
  tweak(s.w_sps);
  tweak(s.w_pps);
  tweak(s.w_aud);
  tweak(s.w_sei);
  tweak(s.w_simple);
  tweak(s.w_repeat);
  if (c.chance(100)) s.w_slice = 15;
  if (c.chance(500)) s.near_permille = c.flag() ? 150 : 500;
  return s;
}

UP Sender::keep(Unit u) {
  u.uid = (int)all.size();
  UP p = std::make_shared<Unit>(std::move(u));
  all.push_back(p);
  index_.emplace(hash_bytes(p->raw.data(), p->raw.size()), p);
  return p;
}

UP Sender::lookup(const Bytes& raw) const {
  auto r = index_.equal_range(hash_bytes(raw.data(), raw.size()));
  // several units may have the same bytes (and then the same content)
  for (auto it = r.first; it != r.second; ++it)
    if (it->second->raw == raw && it->second->kind != K::SLICE) return it->second;
  UP best;
  for (auto it = r.first; it != r.second; ++it)
    if (it->second->raw == raw && (!best || it->second->uid > best->uid)) best = it->second;
  return best;
}

void maybe_giant(Run& r, SenderCfg& s) {
  if (!r.ch.chance(2)) return;
  s.enc.giant = 3 + (unsigned)r.ch.below(3);
  s.w_slice = std::max(s.w_slice, 40u);
  r.probe("giant slice");
}

void Sender::register_fragment(const Bytes& raw, const UP& u) {
  frags_.emplace(hash_bytes(raw.data(), raw.size()), std::make_pair(raw, u));
}
UP Sender::lookup_fragment(const Bytes& raw) const {
  auto r = frags_.equal_range(hash_bytes(raw.data(), raw.size()));
  UP best;
  for (auto it = r.first; it != r.second; ++it)
    if (it->second.first == raw && (!best || it->second.second->uid > best->uid)) best = it->second.second;
  return best;
}

template <class F>
Unit Sender::coded(K k, F f) {
  Choices& c = r_.ch;
  auto& h = drawn_[k];
  if (!h.empty() && c.chance(cfg_.near_permille)) {
    // a few draws changed, or a fifth, or half of them
    static const unsigned changes[] = {1, 2, 0, 3, 1, 6};
    auto& from = h[c.flag() ? h.size() - 1 : c.below(h.size())];
    unsigned how = (unsigned)c.below(10), len = (unsigned)(from.second - from.first);
    unsigned n = how < 6 ? changes[how] : how < 8 ? 1 + len / 5 : 1 + len / 2;
    c.echo(from.first, from.second, n);
    r_.probe("unit made like an earlier one");
  }
  size_t b = c.tape().size();
  Unit u = f();
  c.echo_off();
  h.push_back({b, c.tape().size()});
  return u;
}

UP Sender::make(K k) {
  Choices& c = r_.ch;
  switch (k) {
    case K::VPS: {
      UP u = keep(coded(k, [&] { return enc_.vps(); }));
      vps[u->set_id] = u;
      return u;
    }
    case K::SPS: {
      UP u = keep(coded(k, [&] { return enc_.sps(); }));
      sps[u->set_id] = u;
      return u;
    }
    case K::PPS: {
      if (sps.empty()) return make(K::SPS);
      auto it = sps.begin();
      std::advance(it, (long)c.below(sps.size()));
      UP s = it->second;
      UP u = keep(coded(k, [&] { return enc_.pps(s->set_id, s->sps.get()); }));
      u->sps_uid = s->uid;
      pps[u->set_id] = u;
      return u;
    }
    case K::SLICE: return slice_or_set();
    case K::AUD: return keep(enc_.aud());
    case K::SEI: return keep(coded(k, [&] { return enc_.sei(); }));
    default: return keep(enc_.simple());
  }
}

UP Sender::slice_or_set() {
  Choices& c = r_.ch;
  if (vps.empty() && c.chance(900)) return make(K::VPS);
  if (sps.empty()) return make(K::SPS);
  std::vector<std::pair<UP, UP>> ok;
  for (auto& p : pps) {
    auto s = sps.find(p.second->pps->sps_id);
    if (s == sps.end() || !compatible(*p.second->pps, *s->second->sps)) continue;
    // the PPS must have been made for an SPS with the same constraints
    ok.push_back({p.second, s->second});
  }
  if (ok.empty()) return make(K::PPS);
  auto& pr = ok[c.below(ok.size())];
  Unit u = coded(K::SLICE, [&] { return enc_.slice(*pr.second->sps, *pr.first->pps); });
  u.pps = pr.first->pps;
  u.sps = pr.second->sps;
  u.pps_uid = pr.first->uid;
  u.sps_uid = pr.second->uid;
  return keep(std::move(u));
}

UP Sender::strange(K k, const char* element, unsigned skip) {
  Choices& c = r_.ch;
  enc_.beyond = element;
  enc_.beyond_skip = skip;
  Unit u;
  if (k == K::VPS) {
    u = enc_.vps();
  } else if (k == K::SPS) {
    u = enc_.sps();
  } else {
    std::vector<std::pair<UP, UP>> ok;
    for (auto& p : pps) {
      auto s = sps.find(p.second->pps->sps_id);
      if (s != sps.end() && compatible(*p.second->pps, *s->second->sps) && !p.second->pps->greedy) ok.push_back({p.second, s->second});
    }
    if (!ok.empty()) {
      auto& pr = ok[c.below(ok.size())];
      u = enc_.slice(*pr.second->sps, *pr.first->pps);
      u.pps_uid = pr.first->uid;
      u.sps_uid = pr.second->uid;
    }
  }
  enc_.beyond = nullptr;
  return u.beyond ? std::make_shared<Unit>(std::move(u)) : nullptr;
}

std::vector<UP> Sender::current_sets() const {
  std::vector<UP> v;
  for (auto& x : vps) v.push_back(x.second);
  for (auto& x : sps) v.push_back(x.second);
  for (auto& x : pps) v.push_back(x.second);
  return v;
}

UP Sender::next() {
  SpanGuard g(r_.ch);
  Choices& c = r_.ch;
  if (sps.empty() || pps.empty()) return slice_or_set();
  unsigned w[] = {cfg_.w_slice, cfg_.w_vps, cfg_.w_sps, cfg_.w_pps, cfg_.w_aud, cfg_.w_sei, cfg_.w_simple, cfg_.w_repeat};
  unsigned tot = 0;
  for (unsigned x : w) tot += x;
  uint64_t x = c.below(tot);
  unsigned k = 0;
  while (x >= w[k]) x -= w[k++];
  switch (k) {
    case 0: return make(K::SLICE);
    case 1: return make(K::VPS);
    case 2: return make(K::SPS);
    case 3: return make(K::PPS);
    case 4: return make(K::AUD);
    case 5: return make(K::SEI);
    case 6: return make(K::OTHER);
    default: {
      auto v = current_sets();
      return v[c.below(v.size())];
    }
  }
}

// ---------------------------------------------------------------- packets
Opt draw_opt(Choices& c) {
  Opt o;
  uint64_t b = c.below(32);
  o.add_offset = b & 1;
  o.add_length = b & 2;
  o.add_parsed_length = b & 4;
  o.add_checksum = b & 8;
  o.add_resolution = b & 16;
  return o;
}

PackCfg draw_pack_cfg(Run& r) {
  Choices& c = r.ch;
  PackCfg p;
  unsigned* w[] = {&p.w_annexb, &p.w_len, &p.w_unit, &p.w_unesc, &p.w_single, &p.w_ap, &p.w_fu, &p.w_hvcc, &p.w_part};
  switch (c.below(4)) {
    case 1: {  // one carrier only
      unsigned keep = (unsigned)c.below(8);
      if (keep == 7) keep = 8;
      for (unsigned i = 0; i < 9; i++) *w[i] = i == keep || (i == 7 && keep == 1) ? 3 : 0;
      break;
    }
    case 2: {  // two
      unsigned a = (unsigned)c.below(9), b = (unsigned)c.below(9);
      for (unsigned i = 0; i < 9; i++) *w[i] = i == a || i == b ? 2 : 0;
      break;
    }
    default: break;
  }
  return p;
}

std::vector<Bytes> nals_of(const std::vector<UP>& us) {
  std::vector<Bytes> v;
  for (auto& u : us) v.push_back(u->nal);
  return v;
}

static void put(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }

Packed pack_annexb(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals, bool junk) {
  Choices& c = r.ch;
  Packed p;
  p.units = us;
  p.nals = nals;
  p.d.car = Car::ANNEXB;
  p.d.opt = draw_opt(c);
  Bytes& b = p.d.buf;
  if (junk && c.chance(200)) {
    // anything that holds no start code
    unsigned n = (unsigned)c.below(20);
    for (unsigned i = 0; i < n; i++) b.push_back((uint8_t)(c.flag() ? c.below(4) : c.below(256)));
    for (size_t i = 0; i + 2 < b.size(); i++)
      if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) b[i + 2] = 2;
    if (n) r.probe("bytes before the first start code");
  }
  for (size_t i = 0; i < nals.size(); i++) {
    if (c.flag()) b.push_back(0);
    b.push_back(0);
    b.push_back(0);
    b.push_back(1);
    p.at.push_back(b.size());
    put(b, nals[i]);
  }
  return p;
}

Packed pack_len(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals, unsigned width) {
  Packed p;
  p.units = us;
  p.nals = nals;
  p.d.car = Car::LEN;
  p.d.width = width;
  p.d.opt = draw_opt(r.ch);
  for (size_t i = 0; i < nals.size(); i++) {
    for (unsigned k = width; k-- > 0;)
      p.d.buf.push_back((uint8_t)(k < 8 ? ((uint64_t)nals[i].size() >> (8 * k)) & 255 : 0));
    p.at.push_back(p.d.buf.size());
    put(p.d.buf, nals[i]);
  }
  return p;
}

Packed pack_unit(Run& r, const UP& u, const Bytes& nal, bool unesc) {
  Packed p;
  p.units = {u};
  p.nals = {nal};
  p.at = {0};
  p.d.car = unesc ? Car::UNESC : Car::UNIT;
  p.d.opt = draw_opt(r.ch);
  p.d.buf = unesc ? unescape(nal) : nal;
  return p;
}

Packed pack_part(Run& r, const UP& u, const Bytes& nal) {
  Packed p = pack_unit(r, u, nal, false);
  p.d.car = r.ch.flag() ? Car::PART : Car::BODY;
  return p;
}

Packed pack_single(Run& r, const UP& u, const Bytes& nal) {
  Packed p;
  p.units = {u};
  p.nals = {nal};
  p.at = {0};
  p.d.car = Car::RTP;
  p.d.buf = nal;
  if (r.ch.chance(150)) p.d.width = 1;
  return p;
}

static unsigned min_layer(const std::vector<UP>& us) {
  unsigned m = 63;
  for (auto& u : us) m = std::min(m, u->layer);
  return us.empty() ? 0 : m;
}
static unsigned min_tid(const std::vector<UP>& us) {
  unsigned m = 7;
  for (auto& u : us) m = std::min(m, u->tid);
  return us.empty() ? 1 : m;
}

Packed pack_ap(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals) {
  Packed p;
  p.units = us;
  p.nals = nals;
  p.d.car = Car::RTP;
  if (r.ch.chance(150)) p.d.width = 1;
  unsigned layer = min_layer(us), tid = min_tid(us);
  Bytes& b = p.d.buf;
  b.push_back((uint8_t)(48 << 1 | layer >> 5));
  b.push_back((uint8_t)((layer & 31) << 3 | tid));
  for (size_t i = 0; i < nals.size(); i++) {
    b.push_back((uint8_t)(nals[i].size() >> 8));
    b.push_back((uint8_t)nals[i].size());
    p.at.push_back(b.size());
    put(b, nals[i]);
  }
  (void)r;
  return p;
}

std::vector<Packed> pack_fu(Run& r, Sender* s, const UP& u, const Bytes& nal) {
  Choices& c = r.ch;
  std::vector<Packed> out;
  // at least two fragments, cut anywhere
  size_t body = nal.size() - 2;
  unsigned n = 2 + (unsigned)c.below(std::min<size_t>(3, body - 1));
  std::vector<size_t> cuts{0, body};
  for (unsigned i = 1; i < n; i++) {
    size_t at;
    switch (c.below(4)) {
      case 0: at = body - 1; break;
      case 1: at = 1; break;
      default: at = 1 + c.below(body - 1);
    }
    cuts.push_back(at);
  }
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    Packed p;
    p.units = {u};
    p.d.car = Car::RTP;
    if (c.chance(150)) p.d.width = 1;
    Bytes& b = p.d.buf;
    b.push_back((uint8_t)((nal[0] & 0x81) | 49 << 1));
    b.push_back(nal[1]);
    unsigned type = (nal[0] >> 1) & 63;
    bool sbit = i == 0, e = i + 2 == cuts.size();
    b.push_back((uint8_t)(sbit << 7 | e << 6 | type));
    b.insert(b.end(), nal.begin() + 2 + (long)cuts[i], nal.begin() + 2 + (long)cuts[i + 1]);
    p.fragment = true;
    p.first_fragment = sbit;
    p.at = {0};
    Bytes frag(nal.begin(), nal.begin() + 2 + (long)cuts[i + 1]);
    p.nals = {frag};
    if (sbit && s) s->register_fragment(unescape(frag), u);
    out.push_back(std::move(p));
  }
  return out;
}

Packed pack_hvcc(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals) {
  Choices& c = r.ch;
  Packed p;
  p.units = us;
  p.nals = nals;
  p.d.car = Car::HVCC;
  p.d.opt = draw_opt(c);
  BitOut w;
  Node o = Node::Obj();
  auto U = [&](unsigned len, const char* nm, uint64_t v) {
    w.u(len, v);
    if (nm) o.i(nm, (int64_t)v);
  };
  U(8, "configurationVersion", 1);
  U(2, "general_profile_space", c.below(4));
  U(1, "general_tier_flag", c.below(2));
  U(5, "general_profile_idc", c.below(32));
  uint64_t compat = c.below(1ull << 32);
  Node cf = Node::Ints();
  for (int j = 0; j < 32; j++) {
    w.bit((compat >> (31 - j)) & 1);
    cf.iv.push_back((compat >> (31 - j)) & 1);
  }
  o.set("general_profile_compatibility_flags", cf);
  U(48, "general_constraint_indicator_flags", c.below(1ull << 48));
  U(8, "general_level_idc", c.below(256));
  U(4, "reserved1", 15);
  U(12, "min_spatial_segmentation_idc", c.below(4096));
  U(6, "reserved2", 63);
  U(2, "parallelismType", c.below(4));
  U(6, "reserved3", 63);
  U(2, "chroma_format_idc", c.below(4));
  U(5, "reserved4", 31);
  U(3, "bit_depth_luma_minus8", c.below(8));
  U(5, "reserved5", 31);
  U(3, "bit_depth_chroma_minus8", c.below(8));
  U(16, "avgFrameRate", c.below(65536));
  U(2, "constantFrameRate", c.below(4));
  U(3, "numTemporalLayers", c.below(8));
  U(1, "temporalIdNested", c.below(2));
  U(2, "lengthSizeMinusOne", c.below(4));
  // arrays: consecutive runs of the units, cut anywhere
  std::vector<size_t> sizes;
  size_t left = nals.size();
  while (left) {
    size_t k = 1 + c.below(std::min<size_t>(left, left > 60 ? left : 4));
    if (c.chance(60) && sizes.size() < 100) sizes.push_back(0);
    if (sizes.size() > 200) k = left;
    sizes.push_back(k);
    left -= k;
  }
  if (nals.empty() && c.flag()) sizes.push_back(0);
  U(8, "numOfArrays", sizes.size());
  Node ac = Node::Ints(), r6 = Node::Ints(), nt = Node::Ints(), nn = Node::Ints(), nl = Node::List();
  size_t i = 0;
  for (size_t k : sizes) {
    unsigned comp = (unsigned)c.below(2);
    unsigned type = k ? (nals[i].size() ? nal_type(nals[i]) : 32) : 32 + (unsigned)c.below(3);
    w.u(1, comp);
    w.u(1, 0);
    w.u(6, type);
    w.u(16, k);
    ac.iv.push_back(comp);
    r6.iv.push_back(0);
    nt.iv.push_back(type);
    nn.iv.push_back((int64_t)k);
    Node ls = Node::Ints();
    for (size_t j = 0; j < k; j++, i++) {
      w.u(16, nals[i].size());
      ls.iv.push_back((int64_t)nals[i].size());
      p.at.push_back(w.b.size());
      put(w.b, nals[i]);
      w.n += 8 * nals[i].size();
    }
    nl.kids.push_back(ls);
  }
  o.set("array_completeness", ac);
  o.set("reserved6", r6);
  o.set("NAL_unit_type", nt);
  o.set("numNalus", nn);
  o.set("nalUnitLength", nl);
  p.d.buf = w.b;
  p.expect_top = o;
  return p;
}

std::vector<Packed> packetise(Run& r, Sender* s, const std::vector<UP>& us, const std::vector<Bytes>& nals, const PackCfg& pc) {
  Choices& c = r.ch;
  SpanGuard g(c);
  std::vector<Packed> out;
  unsigned w[] = {pc.w_annexb, pc.w_len, pc.w_unit, pc.w_unesc, pc.w_single, pc.w_ap, pc.w_fu, pc.w_hvcc, pc.w_part};
  unsigned tot = 0;
  for (unsigned x : w) tot += x;
  uint64_t x = c.below(tot);
  unsigned k = 0;
  while (x >= w[k]) x -= w[k++];
  size_t mx = 0, total = 0;
  for (auto& n : nals) {
    mx = std::max(mx, n.size());
    total += n.size();
  }
  switch (k) {
    case 0: out.push_back(pack_annexb(r, us, nals, pc.junk)); break;
    case 1: {
      std::vector<unsigned> ws{4, 2, 8, 1};
      unsigned width = ws[c.below(4)];
      if (width == 1 && mx > 255) width = 4;
      if (width == 2 && mx > 65535) width = 4;
      out.push_back(pack_len(r, us, nals, width));
      break;
    }
    case 7:
      if (mx <= 65535 && nals.size() < 60000) {
        out.push_back(pack_hvcc(r, us, nals));
        break;
      }
      // fallthrough
    case 5:
      if (mx <= 65535) {
        out.push_back(pack_ap(r, us, nals));
        break;
      }
      // fallthrough
    default:
      for (size_t i = 0; i < nals.size(); i++) {
        if (k == 3) out.push_back(pack_unit(r, us[i], nals[i], true));
        else if (k == 8) out.push_back(pack_part(r, us[i], nals[i]));
        else if (k == 4 || k == 5) out.push_back(pack_single(r, us[i], nals[i]));
        else if (k == 6 && nals[i].size() > 3) {
          for (auto& p : pack_fu(r, s, us[i], nals[i])) out.push_back(std::move(p));
        } else if (k == 6) out.push_back(pack_single(r, us[i], nals[i]));
        else out.push_back(pack_unit(r, us[i], nals[i], false));
      }
  }
  return out;
}

// ---------------------------------------------------------------- damage
const char* damage(Run& r, Bytes& b, bool keep_header) {
  Choices& c = r.ch;
  size_t lo = keep_header ? 2 : 0;
  if (b.size() <= lo) {
    b.push_back((uint8_t)c.below(256));
    return "appended byte";
  }
  size_t span = b.size() - lo;
  // damage near the front hits syntax, damage near the end hits slice data
  auto pos = [&]() -> size_t {
    size_t lim = c.chance(700) ? std::min<size_t>(span, 24) : span;
    return lo + c.below(lim);
  };
  switch (c.below(9)) {
    case 0: {
      unsigned n = 1 + (unsigned)c.below(3);
      for (unsigned i = 0; i < n; i++) b[pos()] ^= (uint8_t)(1u << c.below(8));
      return "bit flips";
    }
    case 1: {
      b[pos()] = (uint8_t)c.below(256);
      return "byte overwritten";
    }
    case 2: {
      b.resize(lo + c.below(span));
      return "truncated";
    }
    case 3: {
      size_t at = pos(), n = std::min<size_t>(b.size() - at, 1 + c.below(8));
      memset(&b[at], c.flag() ? 0xff : 0, n);
      return "burst of equal bytes";
    }
    case 4: {
      size_t at = pos(), n = std::min<size_t>(b.size() - at, 1 + c.below(6));
      b.erase(b.begin() + (long)at, b.begin() + (long)(at + n));
      return "bytes lost";
    }
    case 5: {
      size_t at = pos(), n = 1 + c.below(6);
      Bytes x;
      for (size_t i = 0; i < n; i++) x.push_back((uint8_t)(c.flag() ? c.below(4) : c.below(256)));
      b.insert(b.begin() + (long)at, x.begin(), x.end());
      return "bytes inserted";
    }
    case 6: {
      size_t at = pos(), n = std::min<size_t>(b.size() - at, 1 + c.below(16));
      Bytes x(b.begin() + (long)at, b.begin() + (long)(at + n));
      b.insert(b.begin() + (long)at, x.begin(), x.end());
      return "bytes duplicated";
    }
    case 7: {
      size_t at = pos(), n = std::min<size_t>(b.size() - at, 1 + c.below(12));
      for (size_t i = 0; i < n; i++) b[at + i] = (uint8_t)c.below(256);
      return "burst of noise";
    }
    default: {
      size_t at = pos();
      b.resize(at);
      unsigned n = (unsigned)c.below(30);
      for (unsigned i = 0; i < n; i++) b.push_back((uint8_t)c.below(256));
      return "tail replaced";
    }
  }
}

// ---------------------------------------------------------------- reference framing
std::vector<RefIndex> ref_split(const uint8_t* p, size_t n) {
  std::vector<RefIndex> v;
  for (size_t i = 0; i + 3 <= n;) {
    if (p[i] == 0 && p[i + 1] == 0 && p[i + 2] == 1) {
      size_t start = i > 0 && p[i - 1] == 0 ? i - 1 : i;
      if (!v.empty()) v.back().size = start - v.back().payload;
      v.push_back({start, i + 3, 0});
      i += 3;
    } else {
      i++;
    }
  }
  if (!v.empty()) v.back().size = n - v.back().payload;
  return v;
}

static RU ru_of(const uint8_t* base, size_t off, size_t len) {
  RU u;
  u.off = off;
  u.len = len;
  u.raw = unescape(Bytes(base + off, base + off + len));
  u.report = u.raw.size() >= 2;
  return u;
}

RefFrame ref_frame(const Delivery& d) {
  RefFrame f;
  const Bytes& b = d.buf;
  const uint8_t* p = b.data();
  size_t n = b.size();
  switch (d.car) {
    case Car::ANNEXB:
      for (auto& x : ref_split(p, n)) {
        RU u = ru_of(p, x.payload, x.size);
        if (u.report) f.units.push_back(std::move(u));
      }
      break;
    case Car::LEN: {
      size_t i = 0;
      while (i < n) {
        uint64_t len = 0;
        if (d.width == 0) {
          len = n;
        } else {
          if (n - i < d.width) break;
          for (unsigned k = 0; k < d.width; k++) {
            if (len >> 56) len |= 1ull << 63;  // only grows: saturate
            len = (len & (1ull << 63)) ? len : (len << 8) + p[i + k];
          }
          i += d.width;
          if (len == 0 || len > n - i) break;
        }
        RU u = ru_of(p, i, (size_t)len);
        if (u.report) f.units.push_back(std::move(u));
        i += (size_t)len;
      }
      break;
    }
    case Car::UNIT: {
      RU u = ru_of(p, 0, n);
      if (u.report) f.units.push_back(std::move(u));
      else f.refused = true;
      break;
    }
    case Car::BODY:
    case Car::PART: {
      // the payload is unescaped on its own
      RU u;
      u.len = n;
      if (n < 2) {
        f.refused = true;
        break;
      }
      u.raw = unescape(Bytes(b.begin() + 2, b.end()));
      u.raw.insert(u.raw.begin(), b.begin(), b.begin() + 2);
      f.units.push_back(std::move(u));
      break;
    }
    case Car::UNESC: {
      RU u;
      u.len = n;
      u.raw = b;
      if (n >= 2) f.units.push_back(std::move(u));
      else f.refused = true;
      break;
    }
    case Car::RTP: {
      unsigned type = n ? (p[0] >> 1) & 63 : 0;
      if (n < 2) {
        f.refused = true;
        break;
      }
      if (type == 48) {
        size_t i = 2;
        Node top = Node::Obj();
        Node sizes = Node::Ints();
        while (i < n) {
          if (n - i < 2) {
            f.refused = true;
            break;
          }
          size_t len = (size_t)p[i] << 8 | p[i + 1];
          i += 2;
          if (len > n - i) {
            f.refused = true;
            break;
          }
          RU u = ru_of(p, i, len);
          if (!u.report) {
            f.refused = true;
            break;
          }
          sizes.iv.push_back((int64_t)len);
          f.units.push_back(std::move(u));
          i += len;
        }
        top.set("header", ref_header(p));
        top.set("nal_unit_sizes", sizes);
        f.top = top;
        break;
      }
      Bytes raw = unescape(b);
      if (raw.size() < 2) {
        f.refused = true;
        break;
      }
      if (type == 49) {
        if (raw.size() < 3) {
          f.refused = true;
          break;
        }
        Node top = Node::Obj();
        top.set("header", ref_header(raw.data()));
        top.i("s_bit", raw[2] >> 7);
        top.i("e_bit", (raw[2] >> 6) & 1);
        top.i("fu_type", raw[2] & 63);
        f.top = top;
        RU u;
        u.len = n;
        u.fu = true;
        u.fu_rest = !(raw[2] >> 7);
        u.raw.push_back((uint8_t)((raw[0] & 0x81) | (raw[2] & 63) << 1));
        u.raw.insert(u.raw.end(), raw.begin() + 1, raw.begin() + 2);
        u.raw.insert(u.raw.end(), raw.begin() + 3, raw.end());
        f.units.push_back(std::move(u));
        break;
      }
      if (type >= 50) break;  // reserved: an empty report
      RU u;
      u.len = n;
      u.raw = raw;
      f.units.push_back(std::move(u));
      break;
    }
    case Car::HVCC: {
      // only called for records whose fixed fields are as built
      if (n < 23) {
        f.refused = true;
        break;
      }
      size_t i = 23;
      unsigned arrays = p[22];
      for (unsigned a = 0; a < arrays && !f.refused; a++) {
        if (n - i < 3) {
          f.refused = true;
          break;
        }
        if (p[i] & 0x40) f.refused = true;
        size_t cnt = (size_t)p[i + 1] << 8 | p[i + 2];
        i += 3;
        for (size_t k = 0; k < cnt && !f.refused; k++) {
          if (n - i < 2) {
            f.refused = true;
            break;
          }
          size_t len = (size_t)p[i] << 8 | p[i + 1];
          i += 2;
          if (len > n - i) {
            f.refused = true;
            break;
          }
          f.units.push_back(ru_of(p, i, len));
          i += len;
        }
      }
      break;
    }
  }
  return f;
}

uint32_t ref_checksum(const Bytes& raw) {
  uint32_t acc = 0;
  for (size_t i = 0; i < raw.size(); i += 4) {
    uint32_t w = 0;
    for (size_t k = 0; k < 4; k++) w = w << 8 | (i + k < raw.size() ? raw[i + k] : 0);
    uint32_t s = acc + w;
    if (s < acc) s++;  // end-around carry
    acc = s;
  }
  return ~acc;
}
std::string sum_text(uint32_t v) {
  char b[16];
  snprintf(b, sizeof b, "%08x", v);
  return b;
}

// ---------------------------------------------------------------- reference receiver
uint64_t Shadow::sets_hash() const {
  uint64_t h = 7;
  for (auto* m : {&vps, &sps, &pps}) {
    h = mix(h, m->size());
    for (auto& x : *m) h = mix(mix(h, x.first), hash_bytes(x.second.raw.data(), x.second.raw.size()));
  }
  return h;
}

void Shadow::feed_sets(State* st, uint64_t order_seed) const {
  std::vector<const Slot*> v;
  for (auto* m : {&vps, &sps, &pps})
    for (auto& x : *m) v.push_back(&x.second);
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[splitmix64(order_seed) % i]);
  Opt o;
  for (auto* s : v) hn::H265NalUnitParser::ParseNalUnitUnescaped(s->raw.data(), s->raw.size(), st, o);
}

Rep Shadow::fresh(const RU& u, Node* after, uint64_t order_seed) {
  State st;
  feed_sets(&st, order_seed);
  Opt o;
  uint64_t fill = g_meter.fill;
  if (fill) g_meter.fill = fill ^ 0x5a5a5a5a5a5a5a5aull;
  scribble_stack(fill + 77);
  auto n = hn::H265NalUnitParser::ParseNalUnitUnescaped(u.raw.data(), u.raw.size(), &st, o);
  g_meter.fill = fill;
  if (after) *after = state_tree(st);
  return rep_of(n.get());
}

void Shadow::accept(std::map<uint32_t, Slot>& m, const char* kind, const RU& u, const Node& tree, const UP& prov) {
  (void)kind;
  (void)tree;
  static const char* idn[] = {"vps_video_parameter_set_id", "sps_seq_parameter_set_id", "pps_pic_parameter_set_id"};
  int k = &m == &vps ? 0 : &m == &sps ? 1 : 2;
  Slot s;
  s.raw = u.raw;
  s.unit = prov;
  s.tree = tree;
  s.tree_hash = tree.hash();
  uint32_t id = (uint32_t)tree.geti(idn[k], -1);
  if (prov && (prov->kind == K::VPS || prov->kind == K::SPS || prov->kind == K::PPS)) id = prov->set_id;
  m[id] = std::move(s);
}

static const char* body_name(unsigned type) {
  switch (type) {
    case 32: return "vps";
    case 33: return "sps";
    case 34: return "pps";
    case 35: return "aud";
    case 39: case 40: return "sei";
  }
  return is_slice_type(type) ? "slice_segment_layer" : nullptr;
}

bool Shadow::sets_as_coded(const Unit& u) const {
  auto p = pps.find(u.pps_id);
  UP cp = s_->by_uid(u.pps_uid), cs = s_->by_uid(u.sps_uid);
  if (p == pps.end() || !cp || !cs || p->second.raw != cp->raw) return false;
  auto q = sps.find(cp->pps->sps_id);
  return q != sps.end() && q->second.raw == cs->raw;
}

void Shadow::observe_unit(const RU& u, const Rep& rep, const Opt* opt, bool has_meta) {
  const char* nm = name_.c_str();
  if (u.fu_rest) {
    if ((o_ & (O_TREE | O_TOP)) && !rep.pay.null())
      r_.fail("fu-rest", "%s: a fragment that is not the first one reports a payload", nm);
    return;
  }
  if (rep.null) r_.fail("not-reported", "%s: NAL unit of %zu bytes (%s) is not reported", nm, u.raw.size(), hex(u.raw, 24).c_str());
  std::string why;
  unsigned type = nal_type(u.raw);
  if ((o_ & (O_HDR | O_TREE)) && !rep.from_fu) {
    Node h = ref_header(u.raw.data());
    if (!match(h, rep.hdr, "nal_unit_header", &why)) r_.fail("header", "%s: %s", nm, why.c_str());
  }
  if (rep.pay.null()) r_.fail("no-payload-object", "%s: unit without payload object", nm);
  // only the field for the unit's own type may be set
  const char* bn = body_name(type);
  if (o_ & O_TREE)
    for (auto& k : rep.pay.kids)
      if (k.kind != Node::kNull && (!bn || strcmp(k.name, bn)))
        r_.fail("foreign-payload", "%s: unit of type %u reports %s", nm, type, k.name);
  UP prov = s_ ? (u.fu ? nullptr : s_->lookup(u.raw)) : nullptr;
  bool part = false;
  if (u.fu && s_) {
    prov = s_->lookup_fragment(u.raw);
    part = prov != nullptr;
  }
  const Node* body = bn ? rep.pay.get(bn) : nullptr;
  bool has_body = body && !body->null();
  bool intact = prov && !part;
  if (part) {
    // first fragment of an intact unit
    if (prov->kind == K::SLICE && u.raw.size() * 8 >= prov->syn_bits) intact = true;
    else if ((prov->kind == K::VPS || prov->kind == K::SPS || prov->kind == K::PPS || prov->kind == K::SEI ||
              prov->kind == K::AUD || prov->kind == K::SLICE) &&
             u.raw.size() * 8 < prov->mand_bits && (prov->kind != K::SLICE || sets_as_coded(*prov))) {
      // cut inside the mandatory syntax: nothing may be made of it
      if (has_body && (o_ & O_TREE)) {
        const Node* p = prov->kind == K::SEI ? body->get("payload_state") : body;
        if (p && !p->null())
          r_.fail("fragment-accepted", "%s: %s accepted from its first %zu bytes", nm, prov->brief().c_str(), u.raw.size());
      }
    }
  }
  bool set_type = type >= 32 && type <= 34;
  if (intact) {
    this->intact++;
    if (prov->kind == K::SLICE) {
      auto p = pps.find(prov->pps_id);
      bool missing = p == pps.end();
      std::map<uint32_t, Slot>::iterator q;
      if (!missing) {
        uint32_t sid = p->second.unit ? p->second.unit->pps->sps_id
                                      : (uint32_t)p->second.tree.geti("pps_seq_parameter_set_id", -1);
        q = sps.find(sid);
        missing = q == sps.end();
      }
      if (missing) {
        refused_missing++;
        r_.probe("intact slice whose parameter set is missing");
        if ((o_ & (O_STATE | O_TREE)) && has_body)
          r_.fail("slice-without-sets", "%s: %s reported although a set it needs was never received", nm, prov->brief().c_str());
      } else {
        UP cp = s_->by_uid(prov->pps_uid), cs = s_->by_uid(prov->sps_uid);
        bool same_sets = cp && cs && p->second.raw == cp->raw && q->second.raw == cs->raw;
        if (same_sets) {
          if ((o_ & O_TREE) && !match(prov->body, rep.pay, "", &why))
            r_.fail("value", "%s: %s: %s", nm, prov->brief().c_str(), why.c_str());
          if ((o_ & O_TREE) && has_body && !u.fu) {
            // the PPS id must be the one named
          }
        } else {
          r_.probe("intact slice decoded with other sets than coded");
          if (o_ & O_DIFF) {
            Rep f = fresh(u);
            if (!same(f.pay, rep.pay, "", &why))
              r_.fail("slice-sets", "%s: %s is not interpreted with the stored sets: %s", nm, prov->brief().c_str(), why.c_str());
          }
        }
      }
    } else {
      if ((o_ & O_TREE) && !match(prov->body, rep.pay, "", &why))
        r_.fail("value", "%s: %s: %s", nm, prov->brief().c_str(), why.c_str());
      if (set_type && !has_body && (o_ & O_STATE))
        r_.fail("intact-set-refused", "%s: %s refused", nm, prov->brief().c_str());
    }
    if ((o_ & O_PLEN) && rep.meta && !u.fu && (has_body || !bn)) {
      // judged only when the sets were the coded ones, or none are needed
      bool ok = prov->kind != K::SLICE || sets_as_coded(*prov);
      size_t lo = (prov->syn_bits + 7) / 8, hi = (prov->syn_bits + 8) / 8;
      if (ok && (rep.plen < lo || rep.plen > hi))
        r_.fail("parsed-length", "%s: %s: parsed length %zu, coded syntax ends after %zu bits", nm, prov->brief().c_str(),
                rep.plen, prov->syn_bits);
    }
  } else {
    this->damaged++;
  }
  if ((o_ & O_PLEN) && rep.meta && rep.plen > u.raw.size())
    r_.fail("parsed-length-beyond", "%s: parsed length %zu of a unit of %zu bytes", nm, rep.plen, u.raw.size());
  if ((o_ & O_FRESH)) {
    Node after;
    Rep f = fresh(u, nullptr, r_.log_hash);
    if (!same(f.pay, rep.pay, "", &why))
      r_.fail("history", "%s: unit %s: fresh receiver and this session differ: %s", nm, hex(u.raw, 24).c_str(), why.c_str());
    if (rep.meta && f.meta && f.plen != rep.plen)
      r_.fail("history-plen", "%s: unit %s: parsed length %zu here, %zu for a fresh receiver", nm, hex(u.raw, 24).c_str(), rep.plen, f.plen);
  }
  if ((o_ & O_PRISTINE) && r_.ch.chance(is_slice_type(type) ? 400 : set_type ? 200 : 50)) {
    PristineItem it;
    for (auto* m : {&vps, &sps, &pps})
      for (auto& x : *m) it.sets.push_back(x.second.raw);
    it.unit = u.raw;
    it.hash = rep.pay.hash();
    for_new_process.push_back(std::move(it));
    if (for_new_process.size() > 40) for_new_process.erase(for_new_process.begin() + (long)r_.ch.below(40));
  }
  if (has_meta && opt && (o_ & O_SUM)) {
    if (rep.has_sum != opt->add_checksum)
      r_.fail("checksum-presence", "%s: checksum %s although it was%s asked for", nm, rep.has_sum ? "present" : "absent",
              opt->add_checksum ? "" : " not");
    if (rep.has_sum) {
      std::string e = sum_text(ref_checksum(u.raw));
      if (e != rep.sum) r_.fail("checksum", "%s: checksum %s, the unit's is %s (%zu bytes)", nm, rep.sum.c_str(), e.c_str(), u.raw.size());
    }
  }
  if (set_type && has_body) {
    const Node& t = *body;
    if (type == 32) accept(vps, "vps", u, t, intact ? prov : nullptr);
    if (type == 33) accept(sps, "sps", u, t, intact ? prov : nullptr);
    if (type == 34) accept(pps, "pps", u, t, intact ? prov : nullptr);
    if (!intact) r_.probe("damaged parameter set accepted");
  } else if (set_type) {
    r_.probe("parameter set refused");
  }
}

void Shadow::ask_new_process() {
  if (for_new_process.empty()) return;
  std::vector<const PristineItem*> v;
  for (auto& x : for_new_process) v.push_back(&x);
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r_.ch.below(i)]);
  bool crashed = false;
  size_t bad = pristine(v, g_meter.fill ^ 0x3333333333333333ull, &crashed);
  if (crashed) r_.fail("pristine-crash", "%s: a new process crashes on what this session parsed", name_.c_str());
  if (bad != SIZE_MAX)
    r_.fail("history-process", "%s: unit %s: a new process, parsing the %zu units noted in another order, reports something else",
            name_.c_str(), hex(v[bad]->unit, 24).c_str(), v.size());
  for (size_t i = 0; i < v.size(); i++) r_.probe("unit compared with a new process");
  for_new_process.clear();
}

void Shadow::resolve_partial(const RefFrame& f, const State& st) {
  // The packet was refused as a whole; units before the damage may have been
  // stored or not. Follow what was stored, provided it is one of the two.
  for (auto& u : f.units) {
    if (!u.report) continue;
    unsigned type = nal_type(u.raw);
    if (type < 32 || type > 34) continue;
    State one;
    Opt o;
    hn::H265NalUnitParser::ParseNalUnitUnescaped(u.raw.data(), u.raw.size(), &one, o);
    UP prov = s_ ? s_->lookup(u.raw) : nullptr;
    auto step = [&](auto& lib_one, auto& lib_now, std::map<uint32_t, Slot>& m) {
      for (auto& x : lib_one) {
        auto it = lib_now.find(x.first);
        if (it == lib_now.end() || !it->second || !x.second) continue;
        Node t = tree_of(*x.second);
        if (t.hash() != tree_of(*it->second).hash()) continue;
        Slot s;
        s.raw = u.raw;
        s.unit = prov;
        s.tree_hash = t.hash();
        s.tree = std::move(t);
        m[x.first] = std::move(s);
      }
    };
    step(one.vps, st.vps, vps);
    step(one.sps, st.sps, sps);
    step(one.pps, st.pps, pps);
  }
}

// The picture sizes and the frame rate the library derives from a parameter
// set, recomputed from what the sender coded (7.4.3.2.1, E.3.1).
static void check_derived(Run& r, const char* nm, uint32_t id, const Node& e, const hn::H265SpsParser::SpsState& s) {
  auto is = [&](const char* what, int64_t got, int64_t want) {
    if (got != want)
      r.fail("derived", "%s: sps %u: %s is %lld, the coded values give %lld", nm, id, what, (long long)got, (long long)want);
  };
  int64_t w = e.geti("pic_width_in_luma_samples"), h = e.geti("pic_height_in_luma_samples");
  int64_t lmin = e.geti("log2_min_luma_coding_block_size_minus3") + 3;
  int64_t lctb = lmin + e.geti("log2_diff_max_min_luma_coding_block_size");
  int64_t mincb = 1ll << lmin, ctb = 1ll << lctb;
  int64_t chroma = e.geti("chroma_format_idc");
  int64_t sw = chroma == 1 || chroma == 2 ? 2 : 1, sh = chroma == 1 ? 2 : 1;
  is("MinCbLog2SizeY", s.getMinCbLog2SizeY(), lmin);
  is("CtbLog2SizeY", s.getCtbLog2SizeY(), lctb);
  is("MinCbSizeY", s.getMinCbSizeY(), mincb);
  is("CtbSizeY", s.getCtbSizeY(), ctb);
  int64_t wm = w / mincb, hm = h / mincb, wc = (w + ctb - 1) / ctb, hc = (h + ctb - 1) / ctb;
  is("PicWidthInMinCbsY", s.getPicWidthInMinCbsY(), wm);
  is("PicHeightInMinCbsY", s.getPicHeightInMinCbsY(), hm);
  is("PicWidthInCtbsY", s.getPicWidthInCtbsY(), wc);
  is("PicHeightInCtbsY", s.getPicHeightInCtbsY(), hc);
  is("PicSizeInMinCbsY", s.getPicSizeInMinCbsY(), wm * hm);
  is("PicSizeInCtbsY", s.getPicSizeInCtbsY(), wc * hc);
  is("PicSizeInSamplesY", s.getPicSizeInSamplesY(), w * h);
  is("SubWidthC", s.getSubWidthC(), sw);
  is("SubHeightC", s.getSubHeightC(), sh);
  int rw = -7, rh = -7;
  is("the result of getResolution", s.getResolution(&rw, &rh), 0);
  auto off = [&](const char* n) { return e.geti(n, 0); };
  is("the width", rw, w - sw * (off("conf_win_left_offset") + off("conf_win_right_offset")));
  is("the height", rh, h - sh * (off("conf_win_top_offset") + off("conf_win_bottom_offset")));
  const Node* v = e.get("vui_parameters");
  if (v && !v->null() && s.vui_parameters) {
    double units = (double)v->geti("vui_num_units_in_tick", 0), scale = (double)v->geti("vui_time_scale", 0);
    if (units > 0 && scale > 0) {
      double f = s.vui_parameters->getFramerate(), want = scale / units;
      if (!(f > want * 0.9999 && f < want * 1.0001))
        r.fail("derived", "%s: sps %u: the frame rate is %g, the coded values give %g", nm, id, f, want);
    }
  }
  r.probe("sizes derived from a stored set");
}

void Shadow::check_state(const State& st, const char* when) {
  const char* nm = name_.c_str();
  auto one = [&](const char* kind, auto& lib, std::map<uint32_t, Slot>& m) {
    for (auto& x : lib) {
      auto it = m.find(x.first);
      if (it == m.end())
        r_.fail("state-extra", "%s %s: the state holds a %s with id %u that was never accepted", nm, when, kind, x.first);
      if (!x.second) r_.fail("state-null", "%s %s: null %s %u stored", nm, when, kind, x.first);
      Node t = tree_of(*x.second);
      if (t.hash() != it->second.tree_hash) {
        std::string why;
        same(it->second.tree, t, kind, &why);
        r_.fail("state-content", "%s %s: stored %s %u is not the latest accepted one: %s", nm, when, kind, x.first, why.c_str());
      }
      if (it->second.unit) {
        std::string why;
        const Node* e = it->second.unit->body.get(kind);
        if (e && !match(*e, t, kind, &why))
          r_.fail("state-value", "%s %s: stored %s %u: %s", nm, when, kind, x.first, why.c_str());
      }
    }
    for (auto& x : m)
      if (!lib.count(x.first))
        r_.fail("state-missing", "%s %s: accepted %s %u is not stored", nm, when, kind, x.first);
  };
  one("vps", st.vps, vps);
  one("sps", st.sps, sps);
  one("pps", st.pps, pps);
  auto acc = [&](uint32_t id) {
    if (st.GetVps(id).get() != (st.vps.count(id) ? st.vps.at(id).get() : nullptr) ||
        st.GetSps(id).get() != (st.sps.count(id) ? st.sps.at(id).get() : nullptr) ||
        st.GetPps(id).get() != (st.pps.count(id) ? st.pps.at(id).get() : nullptr))
      r_.fail("state-accessor", "%s %s: accessor for id %u disagrees with the stored sets", nm, when, id);
  };
  for (uint32_t id : {0u, 1u, 2u, 15u, 63u, 64u, 4000000000u}) acc(id);
}

void Shadow::observe(const Delivery& d, const Result& res, const State& st) {
  const char* nm = name_.c_str();
  RefFrame f = ref_frame(d);
  if (f.refused) {
    if (!res.null()) r_.fail("refusal", "%s: a delivery over %s that must be refused is reported", nm, cname(d.car));
    if (d.car == Car::RTP || d.car == Car::HVCC) resolve_partial(f, st);
    if (o_ & O_STATE) check_state(st, "after a refused delivery");
    return;
  }
  if (res.null()) r_.fail("delivery-refused", "%s: delivery over %s with %zu units is refused", nm, cname(d.car), f.units.size());
  std::vector<Rep> reps = res.reps();
  if (reps.size() != f.units.size())
    r_.fail("unit-count", "%s: %s delivery of %zu bytes holds %zu NAL units, %zu are reported", nm, cname(d.car), d.buf.size(),
            f.units.size(), reps.size());
  if ((o_ & O_TOP) && d.car == Car::RTP) {
    std::string why;
    Node t = res.tree();
    const Node* rtp = t.get("rtp");
    unsigned type = nal_type(d.buf);
    if (!match(ref_header(d.buf.data()), *rtp->get("nal_unit_header"), "rtp.nal_unit_header", &why))
      r_.fail("rtp-header", "%s: %s", nm, why.c_str());
    const char* sub[] = {"rtp_single", "rtp_ap", "rtp_fu"};
    int which = type == 48 ? 1 : type == 49 ? 2 : type < 48 ? 0 : -1;
    for (int i = 0; i < 3; i++)
      if (rtp->get(sub[i])->null() == (i == which))
        r_.fail("rtp-kind", "%s: packet of type %u: %s is %s", nm, type, sub[i], i == which ? "missing" : "present");
    if (!f.top.null() && !match(f.top, *rtp->get(sub[which]), sub[which], &why)) r_.fail("rtp-fields", "%s: %s", nm, why.c_str());
  }
  bool meta = d.car != Car::RTP && d.car != Car::BODY && d.car != Car::PART;
  for (size_t i = 0; i < reps.size(); i++) {
    if (d.car == Car::HVCC && !f.units[i].report) {
      if (!reps[i].null) r_.fail("short-unit", "%s: a unit of under two bytes in a record is reported", nm);
      continue;
    }
    if ((o_ & O_FRAME) && (d.car == Car::ANNEXB || d.car == Car::LEN)) {
      if (reps[i].off != f.units[i].off || reps[i].len != f.units[i].len)
        r_.fail("place", "%s: unit %zu of %zu is at [%zu,+%zu], reported at [%zu,+%zu]", nm, i, reps.size(), f.units[i].off,
                f.units[i].len, reps[i].off, reps[i].len);
    }
    observe_unit(f.units[i], reps[i], &d.opt, meta);
    if ((o_ & O_STATE) && reps.size() == 1) {}
  }
  if (o_ & O_TREE)
    for (auto& x : st.sps) {
      auto it = sps.find(x.first);
      const Node* e = it != sps.end() && it->second.unit ? it->second.unit->body.get("sps") : nullptr;
      if (e && x.second) check_derived(r_, nm, x.first, *e, *x.second);
    }
  if (o_ & O_STATE) check_state(st, "after a delivery");
}

void part_by_itself(Run& r, Encoder& e, bool agree, bool coded) {
  Choices& c = r.ch;
  SpanGuard g(c);
  Part p = e.part((unsigned)c.below(Encoder::kParts));
  const char* nm = part_name(p.kind);
  std::string why;
  // what follows the structure must not matter
  size_t at = c.flag() ? c.below(16) : 0;
  BitOut o, sh;
  for (size_t i = 0; i < at; i++) sh.bit((unsigned)c.below(2));
  for (size_t i = 0; i < p.n; i++) {
    unsigned b = (p.bits[i / 8] >> (7 - i % 8)) & 1;
    o.bit(b);
    sh.bit(b);
  }
  unsigned tail = (unsigned)c.below(3);
  Bytes more;
  if (tail == 1) more.push_back(0x80);
  if (tail == 2)
    for (unsigned i = 0, n = 1 + (unsigned)c.below(5); i < n; i++) more.push_back((uint8_t)c.below(c.flag() ? 256 : 4));
  bool pad = tail == 2 && c.flag();
  while (o.n % 8) o.bit(pad);
  while (sh.n % 8) sh.bit(pad);
  put(o.b, more);
  put(sh.b, more);
  bool intact = true;
  if (agree && c.chance(250)) {
    intact = false;
    r.fault(damage(r, o.b));
    at = 0;
    sh.b = o.b;
  }
  scribble_stack(g_meter.fill);
  Node a = read_part(p.kind, p.args, escape(o.b), p.before);
  size_t end = 0;
  scribble_stack(g_meter.fill + 1);
  Node b = read_part(p.kind, p.args, sh.b, at, p.before, &end);
  r.ev("%s of %zu bits on its own: %s", nm, p.n, a.null() ? "refused" : "reported");
  r.evh("part", a.hash());
  r.count("syntax structures on their own");
  if (agree && !same(a, b, nm, &why))
    r.fail("part-overloads", "%s from a buffer and from a reader: %s", nm, why.c_str());
  if (coded && intact) {
    if (!match(p.want, a, nm, &why)) r.fail("part", "%s on its own, from a buffer: %s", nm, why.c_str());
    if (!match(p.want, b, nm, &why)) r.fail("part", "%s on its own, from a reader: %s", nm, why.c_str());
    if (end != at + p.n) r.fail("part-end", "%s coded in %zu bits, the reader moved by %zu", nm, p.n, end - at);
  }
}

void part_cut_short(Run& r, Encoder& e) {
  Choices& c = r.ch;
  SpanGuard g(c);
  Part p = e.part((unsigned)c.below(Encoder::kParts));
  const char* nm = part_name(p.kind);
  size_t mand = (p.n + 7) / 8;
  for (unsigned i = 0; i < 4; i++) {
    size_t cut = mand - 1 - c.below(c.flag() ? mand : std::min<size_t>(mand, 3));
    Bytes b(p.bits.begin(), p.bits.begin() + (long)cut);
    r.fault("structure cut short");
    size_t end;
    Node x = read_part(p.kind, p.args, escape(b), p.before), y = read_part(p.kind, p.args, b, 0, p.before, &end);
    r.evh("cut", mix(x.hash(), y.hash()));
    if (!x.null() || !y.null())
      r.fail("part-cut", "%s of %zu bits is reported by its parser from the first %zu bytes: %s", nm, p.n, cut, (x.null() ? y : x).brief().c_str());
  }
}

}  // namespace sim
