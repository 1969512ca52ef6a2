// C07, C17, C18, C19: paired worlds and unit-level properties.
#include <algorithm>

#include "session.h"

namespace sim {

namespace {

// Damages a unit so that it is still one well-framed unit on every carrier:
// the damage is done to the unescaped bytes, which are escaped again.
Bytes damage_raw(Run& r, const Bytes& nal, bool keep_header, const char** kind) {
  Bytes raw = unescape(nal);
  *kind = damage(r, raw, keep_header);
  while (raw.size() < 2) raw.push_back(0x41);
  if (((raw[0] >> 1) & 63) >= 48) raw[0] &= 0x5f;
  if (raw.back() == 0) raw.back() = 0x80;
  return escape(raw);
}

bool is_set(unsigned type) { return type >= 32 && type <= 34; }

struct SlotKey {
  unsigned type;
  uint32_t id;
  bool operator<(const SlotKey& o) const { return type != o.type ? type < o.type : id < o.id; }
};

// the ids a set unit would be stored under
void stored_by(const Bytes& raw, std::set<SlotKey>* out) {
  State one;
  Opt o;
  hn::H265NalUnitParser::ParseNalUnitUnescaped(raw.data(), raw.size(), &one, o);
  for (auto& x : one.vps) out->insert({32, x.first});
  for (auto& x : one.sps) out->insert({33, x.first});
  for (auto& x : one.pps) out->insert({34, x.first});
}

std::map<SlotKey, Node> slots(const State& st) {
  std::map<SlotKey, Node> m;
  for (auto& x : st.vps) m[{32, x.first}] = x.second ? tree_of(*x.second) : Node();
  for (auto& x : st.sps) m[{33, x.first}] = x.second ? tree_of(*x.second) : Node();
  for (auto& x : st.pps) m[{34, x.first}] = x.second ? tree_of(*x.second) : Node();
  return m;
}

const char* slot_name(unsigned t) { return t == 32 ? "VPS" : t == 33 ? "SPS" : "PPS"; }

}  // namespace

// C07 ------------------------------------------------------------------
void prop_C07(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  Sender s(r, draw_sender_cfg(r));
  State good;
  auto bad = std::make_unique<State>();
  std::set<SlotKey> taint;
  unsigned rounds = 3 + (unsigned)c.below(thorough ? 30 : 10);
  unsigned p_damage = (unsigned)c.range(30, 400), p_loss = (unsigned)c.below(200);
  unsigned only = c.chance(400) ? 1 + (unsigned)c.below(6) : 0;
  // hardly anything arrives as it was sent, and mostly with the same damage
  unsigned disaster = c.chance(60) ? 1 + (unsigned)c.below(4) : 0;
  if (disaster) {
    p_damage = (unsigned)c.range(500, 950);
    r.fault("bad spell");
  }
  uint64_t now = 0;
  for (unsigned k = 0; k < rounds; k++) {
    SpanGuard g(c);
    unsigned n = disaster ? 6 + (unsigned)c.below(40) : 1 + (unsigned)c.below(7);
    std::vector<UP> us, ub;
    std::vector<Bytes> na, nb;
    std::vector<int> fate;        // 0 intact, 1 damaged, 2 lost
    for (unsigned i = 0; i < n; i++) {
      UP u = s.next();
      us.push_back(u);
      na.push_back(u->nal);
      int f = 0;
      Bytes b = u->nal;
      if (c.chance(p_damage)) {
        f = 1;
        const char* kind;
        if (disaster > 1 && c.chance(900)) {
          // cut to nearly nothing, cut anywhere, noise
          kind = disaster == 4 ? "noise instead of data" : "unit cut short";
          b.resize(disaster == 2 ? 1 : disaster == 3 ? 1 + c.below(4) : 1 + c.below(30));
          if (disaster == 4)
            for (auto& x : b) x = (uint8_t)c.below(256);
        } else if (c.chance(600)) {
          b = damage_raw(r, b, c.chance(600), &kind);
        } else {
          kind = damage(r, b, c.chance(600));
        }
        r.fault(kind);
      } else if (c.chance(p_loss)) {
        f = 2;
        r.fault("unit lost");
      }
      if (f == 1 && b.empty()) b.push_back(0x40);  // nothing left is a lost unit; a zero length field ends the buffer
      fate.push_back(f);
      if (f != 2) {
        ub.push_back(u);
        nb.push_back(b);
      }
    }
    unsigned how = only ? only - 1 : (unsigned)c.below(6);
    size_t mx = 0;
    for (auto* v : {&na, &nb})
      for (auto& x : *v) mx = std::max(mx, x.size());
    if ((how == 4 || how == 5) && mx > 65535) how = 0;
    unsigned width = 4;
    if (how == 1) {
      static const unsigned ws[] = {4, 2, 8, 1};
      width = ws[c.below(4)];
      if ((width == 1 && mx > 255) || (width == 2 && mx > 65535)) width = 4;
    }
    Opt opt = draw_opt(c);
    std::vector<Packed> pa, pb;
    switch (how) {
      case 0:
        pa.push_back(pack_annexb(r, us, na, false));
        pb.push_back(pack_annexb(r, ub, nb, false));
        break;
      case 1:
        pa.push_back(pack_len(r, us, na, width));
        pb.push_back(pack_len(r, ub, nb, width));
        break;
      case 2:
      case 3:
        for (size_t i = 0; i < us.size(); i++) pa.push_back(how == 2 ? pack_unit(r, us[i], na[i], false) : pack_single(r, us[i], na[i]));
        for (size_t i = 0; i < ub.size(); i++) pb.push_back(how == 2 ? pack_unit(r, ub[i], nb[i], false) : pack_single(r, ub[i], nb[i]));
        break;
      case 4:
        pa.push_back(pack_ap(r, us, na));
        pb.push_back(pack_ap(r, ub, nb));
        break;
      default:
        pa.push_back(pack_hvcc(r, us, na));
        pb.push_back(pack_hvcc(r, ub, nb));
    }
    bool cut = false;
    if (how < 2 && c.chance(150) && !pb[0].d.buf.empty()) {
      r.fault("buffer cut short");
      cut = true;
      pb[0].d.buf.resize(c.below(pb[0].d.buf.size()));
    }
    {
      static const char* const fates[] = {"intact", "damaged", "lost"};
      std::string line;
      for (size_t i = 0; i < us.size(); i++) line += " " + us[i]->brief() + "=" + fates[fate[i]];
      r.ev("t=%llu %s:%s%s", (unsigned long long)now, cname(pa[0].d.car), line.c_str(), cut ? ", buffer cut short" : "");
      for (auto& p : pb)
        if (p.d.buf.size() <= 96) r.ev("damaged delivery %s", hex(p.d.buf).c_str());
    }
    // the undamaged world
    std::vector<Rep> ra;
    bool fine_a = true;
    for (auto& p : pa) {
      p.d.opt = opt;
      Result q;
      scribble_stack(g_meter.fill);
      deliver(p.d, &good, &q);
      if (ref_frame(p.d).refused) fine_a = false;
      r.evh("undamaged", q.tree().hash());
      for (auto& x : q.reps()) ra.push_back(std::move(x));
    }
    if (!fine_a || ra.size() != us.size())
      r.fail("undamaged", "%zu intact units over %s: %zu reported", us.size(), cname(pa[0].d.car), ra.size());
    // the damaged one; rb: reports with the index of the sender's unit, or -1
    struct Got {
      int idx;
      Rep rep;
      Bytes raw;
    };
    std::vector<Got> rb;
    std::vector<Bytes> refused_units;
    std::vector<int> order;  // index in us of each unit of ub
    for (size_t i = 0; i < us.size(); i++)
      if (fate[i] != 2) order.push_back((int)i);
    size_t base = 0;
    for (auto& p : pb) {
      p.d.opt = opt;
      RefFrame f = ref_frame(p.d);
      Result q;
      scribble_stack(g_meter.fill);
      deliver(p.d, bad.get(), &q);
      r.evh("damaged", q.tree().hash());
      auto reps = q.reps();
      if (f.refused) {
        for (auto& u : f.units)
          if (u.report) refused_units.push_back(u.raw);
      } else {
        if (reps.size() != f.units.size())
          r.fail("unit-count", "%zu units found in a damaged %s delivery of %zu", reps.size(), cname(p.d.car), f.units.size());
        for (size_t j = 0; j < reps.size(); j++) {
          int idx = -1;
          for (size_t m = 0; m < p.at.size(); m++) {
            int ui = order[base + m];
            bool single = p.d.car == Car::UNIT || p.d.car == Car::RTP;
            bool place = single && pb.size() > 1 ? true : f.units[j].off == p.at[m];
            if (place && fate[(size_t)ui] == 0 && f.units[j].len == p.nals[m].size() && f.units[j].raw == us[(size_t)ui]->raw) idx = ui;
          }
          rb.push_back({idx, reps[j], f.units[j].raw});
        }
      }
      base += p.at.size();
    }
    // every undamaged unit that was delivered whole must be there
    for (size_t i = 0; i < us.size(); i++) {
      if (fate[i] || cut || !refused_units.empty()) continue;
      bool seen = false;
      for (auto& x : rb) seen |= x.idx == (int)i;
      bool whole = true;
      for (auto& p : pb) whole &= !ref_frame(p.d).refused;
      if (!seen && whole) r.fail("lost", "undamaged unit %s is not reported at its place", us[i]->brief().c_str());
    }
    // walk both in order
    std::string why;
    size_t j = 0;
    auto take_damaged = [&](const Got& x) {
      if (x.raw.size() < 2 || !is_set(nal_type(x.raw))) return;
      std::set<SlotKey> ids;
      stored_by(x.raw, &ids);
      for (auto& id : ids) {
        taint.insert(id);
        r.probe("damaged parameter set accepted");
      }
    };
    for (size_t i = 0; i < us.size(); i++) {
      const Unit& u = *us[i];
      size_t at = j;
      while (at < rb.size() && rb[at].idx != (int)i) at++;
      if (at == rb.size()) {
        if (is_set(u.type)) taint.insert({u.type, u.set_id});
        continue;
      }
      for (; j < at; j++)
        if (rb[j].idx < 0) take_damaged(rb[j]);
      j = at + 1;
      const Rep &x = ra[i], &y = rb[at].rep;
      bool dep = false;
      if (u.kind == K::SLICE) {
        auto p = s.by_uid(u.pps_uid);
        dep = taint.count({34, u.pps_id}) || taint.count({33, p->pps->sps_id});
      }
      if (dep) {
        r.probe("slice depends on a lost or changed set");
        continue;
      }
      r.count("undamaged units compared");
      if (!same(x.hdr, y.hdr, "header", &why) || !same(x.pay, y.pay, "payload", &why))
        r.fail("changed", "%s is reported differently because of damage elsewhere: %s", u.brief().c_str(), why.c_str());
      if (x.len != y.len || x.plen != y.plen || x.has_sum != y.has_sum || x.sum != y.sum)
        r.fail("changed-meta", "%s: length %zu/%zu parsed %zu/%zu checksum %s/%s", u.brief().c_str(), x.len, y.len, x.plen, y.plen,
               x.sum.c_str(), y.sum.c_str());
      if (is_set(u.type)) taint.erase({u.type, u.set_id});
    }
    for (; j < rb.size(); j++)
      if (rb[j].idx < 0) take_damaged(rb[j]);
    for (auto& raw : refused_units) stored_by(raw, &taint);
    // sets nobody touched are the same in both worlds
    auto sa = slots(good), sb = slots(*bad);
    for (auto* m : {&sa, &sb})
      for (auto& x : *m) {
        if (taint.count(x.first)) continue;
        auto p = sa.find(x.first), q = sb.find(x.first);
        if (p == sa.end() || q == sb.end())
          r.fail("set-presence", "%s %u is stored only in the %s world although no unit carrying it was damaged or lost",
                 slot_name(x.first.type), x.first.id, p == sa.end() ? "damaged" : "undamaged");
        if (!same(p->second, q->second, slot_name(x.first.type), &why))
          r.fail("set-content", "%s %u differs although no unit carrying it was damaged or lost: %s", slot_name(x.first.type), x.first.id,
                 why.c_str());
      }
    if (c.chance(40)) {
      r.fault("receiver restarted");
      bad = std::make_unique<State>();
      for (auto& x : sa) taint.insert(x.first);
    }
    now += 1000 + c.below(30000);
    r.count("deliveries", pa.size() + pb.size());
    uint64_t h = taint.size();
    for (auto& x : taint) h = mix(h, x.type * 1000 + x.id);
    r.state(mix(h, mix(how, nb.empty() ? 0 : hash_bytes(nb[0].data(), std::min<size_t>(nb[0].size(), 32)))));
  }
  r.st.sim_time += now;
}

// C17 ------------------------------------------------------------------
namespace {
// One delivery of one unit over a carrier with metadata, returns its report.
Rep lone(Run& r, const UP& u, const Bytes& nal, State* st, const Opt& o, std::string* via) {
  Choices& c = r.ch;
  Packed p;
  std::vector<UP> us{u};
  std::vector<Bytes> ns{nal};
  unsigned at = 0;
  // neighbours must not matter
  unsigned how = (unsigned)c.below(5);
  if (how < 2 || how == 4) {
    static const Bytes aud = {0x46, 0x01, 0x50};
    while (us.size() < 4 && c.flag()) {
      if (c.flag()) {
        us.insert(us.begin(), u);
        ns.insert(ns.begin(), aud);
        at++;
      } else {
        us.push_back(u);
        ns.push_back(aud);
      }
    }
  }
  if (how == 4 && nal.size() > 65535) how = 2;
  switch (how) {
    case 0: p = pack_annexb(r, us, ns, true); break;
    case 1: {
      static const unsigned ws[] = {4, 8, 2, 1};
      unsigned w = ws[c.below(4)];
      if ((w == 1 && nal.size() > 255) || (w == 2 && nal.size() > 65535)) w = 4;
      p = pack_len(r, us, ns, w);
      break;
    }
    case 2: p = pack_unit(r, u, nal, false); break;
    case 3: p = pack_unit(r, u, nal, true); break;
    default: p = pack_hvcc(r, us, ns);
  }
  if (how >= 2 && how < 4) at = 0;
  p.d.opt = o;
  p.d.own_state = how < 2 && c.chance(300);
  Result q;
  scribble_stack(g_meter.fill);
  deliver(p.d, st, &q);
  *via = cname(p.d.car);
  auto reps = q.reps();
  if (reps.size() != p.at.size() || reps[at].null) r.fail("not-reported", "a unit of %zu bytes over %s is not reported", nal.size(), via->c_str());
  return reps[at];
}
}  // namespace

void prop_C17(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SessCfg cfg;
  cfg.oracles = O_SUM | O_PLEN;
  cfg.sc = draw_sender_cfg(r);
  maybe_giant(r, cfg.sc);
  cfg.pc = draw_pack_cfg(r);
  cfg.pc.w_annexb += 1;
  cfg.pc.w_hvcc += 1;
  cfg.net = draw_net(r);
  cfg.steps = 2 + (unsigned)c.below(thorough ? 20 : 6);
  Session s(r, cfg, "A");
  for (unsigned i = 0; i < cfg.steps; i++) s.step();
  s.converge();
  r.st.sim_time += s.now;
  unsigned n = 2 + (unsigned)c.below(6);
  for (unsigned k = 0; k < n; k++) {
    SpanGuard g(c);
    UP u = s.s.all[c.below(s.s.all.size())];
    Bytes raw = u->raw;
    if (c.chance(300)) {
      // any length and any content, carries included
      size_t len = 2 + c.below(c.flag() ? 9 : 40);
      raw.resize(len);
      for (size_t i = 2; i < len; i++) raw[i] = c.flag() ? 0xff : (uint8_t)c.below(256);
      if (raw.back() == 0) raw.back() = 1;
      if (len >= 12 && c.chance(400)) {
        // choose one word so that folding the carries back carries again, or only just does not
        size_t j = 4 * (1 + c.below(len / 4 - 2));
        for (size_t i = j; i < j + 4; i++) raw[i] = 0;
        uint64_t sum = 0;
        for (size_t i = 0; i < len; i++) sum += (uint64_t)raw[i] << (8 * (3 - i % 4));
        uint64_t want = (1ull << 32) + c.below(5) - 3;
        for (uint64_t carry = 0; carry < 2; carry++) {
          uint32_t x = (uint32_t)(want - (sum >> 32) - carry - (sum & 0xffffffff));
          if (((sum + x) >> 32) + ((sum + x) & 0xffffffff) != want) continue;
          for (size_t i = 0; i < 4; i++) raw[j + i] = (uint8_t)(x >> (8 * (3 - i)));
          r.count("checksums at the edge of a carry");
          break;
        }
      }
    }
    Bytes nal = escape(raw);
    Opt o = draw_opt(c);
    o.add_checksum = true;
    std::string via, via2;
    State st1, st2, st3;
    Rep a = lone(r, u, nal, &st1, o, &via);
    Rep b = lone(r, u, nal, &st2, o, &via2);
    std::string e = sum_text(ref_checksum(raw));
    if (!a.has_sum || !b.has_sum) r.fail("checksum-missing", "no checksum over %s/%s", via.c_str(), via2.c_str());
    if (a.sum != b.sum) r.fail("checksum-carrier", "checksum %s over %s, %s over %s", a.sum.c_str(), via.c_str(), b.sum.c_str(), via2.c_str());
    if (a.sum != e) r.fail("checksum", "checksum %s over %s, the sum of the %zu unescaped bytes is %s", a.sum.c_str(), via.c_str(), raw.size(), e.c_str());
    // damage inside one 32-bit word
    Bytes d = raw;
    size_t w = c.below((raw.size() + 3) / 4) * 4;
    size_t m = std::min<size_t>(4, raw.size() - w);
    switch (c.below(3)) {
      case 0: d[w + c.below(m)] ^= (uint8_t)(1u << c.below(8)); break;
      case 1:
        for (size_t i = 0; i < m; i++) d[w + i] = (uint8_t)c.below(256);
        break;
      default: std::swap(d[w], d[w + m - 1]);
    }
    if (((d[0] >> 1) & 63) >= 48) d[0] &= 0x5f;
    if (d.back() == 0) d.back() = raw.back();
    if (d == raw) continue;
    auto all = [&](const Bytes& x, uint8_t v) {
      if (m < 4) return false;
      for (size_t i = 0; i < 4; i++)
        if (x[w + i] != v) return false;
      return true;
    };
    if ((all(d, 0) && all(raw, 0xff)) || (all(d, 0xff) && all(raw, 0))) continue;
    r.fault("one word of a unit damaged");
    Rep q = lone(r, u, escape(d), &st3, o, &via2);
    if (!q.has_sum) r.fail("checksum-missing", "no checksum for a damaged unit over %s", via2.c_str());
    if (q.sum == a.sum)
      r.fail("checksum-blind", "damage to the word at byte %zu of %zu is not seen: checksum %s for both", w, raw.size(), q.sum.c_str());
    r.count("damaged words compared");
    r.state(mix(hash_bytes(d.data(), d.size()), w));
    // and without asking for it
    Opt off = draw_opt(c);
    off.add_checksum = false;
    Rep z = lone(r, u, nal, &st1, off, &via);
    if (z.has_sum) r.fail("checksum-unasked", "a checksum over %s that was not asked for", via.c_str());
  }
}

// C18 ------------------------------------------------------------------
void prop_C18(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SenderCfg sc = draw_sender_cfg(r);
  maybe_giant(r, sc);
  Sender s(r, sc);
  struct World {
    State st;
    int fixed = -1;  // one carrier for everything, or a mix
    std::string name;
  };
  unsigned nw = 3 + (unsigned)c.below(3);
  static const char* hn_[] = {"start-code", "length-prefix", "unit", "unescaped", "single RTP", "aggregated RTP", "record", "part"};
  std::vector<World> ws(nw);
  for (unsigned i = 0; i < nw; i++) {
    ws[i].fixed = i == 0 ? 2 : (int)c.below(10) - 1;
    if (ws[i].fixed > 7) ws[i].fixed = -1;
    ws[i].name = ws[i].fixed < 0 ? "mixed" : hn_[ws[i].fixed];
  }
  unsigned rounds = 1 + (unsigned)c.below(thorough ? 16 : 6);
  unsigned p_dam = c.chance(600) ? (unsigned)c.below(300) : 0;
  std::string why;
  for (unsigned k = 0; k < rounds; k++) {
    SpanGuard g(c);
    unsigned n = 1 + (unsigned)c.below(8);
    std::vector<UP> us;
    std::vector<Bytes> nals;
    for (unsigned i = 0; i < n; i++) {
      UP u = s.next();
      Bytes b = u->nal;
      if (c.chance(p_dam)) {
        const char* kind;
        b = damage_raw(r, b, c.flag(), &kind);
        r.fault(kind);
      }
      us.push_back(u);
      nals.push_back(b);
    }
    r.ev("round of %u units", n);
    std::vector<Rep> base;
    for (unsigned w = 0; w < nw; w++) {
      World& x = ws[w];
      SpanGuard g2(c);
      std::vector<Rep> got;
      std::vector<std::string> via;
      for (size_t i = 0; i < nals.size();) {
        size_t m = 1 + (w == 0 ? 0 : c.below(nals.size() - i));
        std::vector<UP> gu(us.begin() + (long)i, us.begin() + (long)(i + m));
        std::vector<Bytes> gn(nals.begin() + (long)i, nals.begin() + (long)(i + m));
        size_t mx = 0;
        for (auto& b : gn) mx = std::max(mx, b.size());
        int how = x.fixed >= 0 ? x.fixed : (int)c.below(8);
        if ((how == 5 || how == 6) && mx > 65535) how = 1;
        std::vector<Packed> ps;
        switch (how) {
          case 0: ps.push_back(pack_annexb(r, gu, gn, true)); break;
          case 1: {
            static const unsigned wd[] = {4, 2, 8, 1, 3, 5};
            unsigned width = wd[c.below(6)];
            if ((width == 1 && mx > 255) || (width == 2 && mx > 65535)) width = 4;
            ps.push_back(pack_len(r, gu, gn, width));
            break;
          }
          case 5: ps.push_back(pack_ap(r, gu, gn)); break;
          case 6: ps.push_back(pack_hvcc(r, gu, gn)); break;
          default:
            for (size_t q = 0; q < gn.size(); q++)
              // (an escape that reaches into a damaged header is not the payload's)
              ps.push_back(how == 4   ? pack_single(r, gu[q], gn[q])
                           : how == 7 && gn[q].size() > 1 && gn[q][1] ? pack_part(r, gu[q], gn[q])
                                                                      : pack_unit(r, gu[q], gn[q], how == 3));
        }
        for (auto& p : ps) {
          Result q;
          scribble_stack(g_meter.fill + w);
          deliver(p.d, &x.st, &q);
          auto reps = q.reps();
          if (reps.size() != p.at.size())
            r.fail("unit-count", "%zu units over %s, %zu reported", p.at.size(), cname(p.d.car), reps.size());
          for (auto& y : reps) {
            got.push_back(std::move(y));
            via.push_back(hn_[how]);
          }
          r.count("deliveries");
        }
        i += m;
      }
      for (size_t i = 0; i < got.size(); i++) {
        if (w == 0) {
          if (got[i].null) r.fail("not-reported", "unit %s not reported", hex(nals[i], 24).c_str());
          r.evh("unit", got[i].pay.hash());
          continue;
        }
        const Rep &a = base[i], &b = got[i];
        if (a.null != b.null) r.fail("report", "%s (now %s) is reported over unit delivery only", us[i]->brief().c_str(), hex(nals[i], 24).c_str());
        if (!same(a.hdr, b.hdr, "header", &why))
          r.fail("header", "%s: unit vs %s (world %s): %s", us[i]->brief().c_str(), via[i].c_str(), x.name.c_str(), why.c_str());
        if (!same(a.pay, b.pay, "payload", &why))
          r.fail("payload", "%s: unit vs %s (world %s): %s", us[i]->brief().c_str(), via[i].c_str(), x.name.c_str(), why.c_str());
        if (b.meta && a.plen != b.plen)
          r.fail("parsed-length", "%s: parsed length %zu by unit, %zu over %s", us[i]->brief().c_str(), a.plen, b.plen, via[i].c_str());
        if (b.has_sum && a.has_sum && a.sum != b.sum)
          r.fail("checksum", "%s: checksum %s by unit, %s over %s", us[i]->brief().c_str(), a.sum.c_str(), b.sum.c_str(), via[i].c_str());
        r.count("reports compared");
      }
      if (w == 0) base = std::move(got);
      else if (!same(state_tree(ws[0].st), state_tree(x.st), "state", &why))
        r.fail("state", "world %s ends up with other parameter sets: %s", x.name.c_str(), why.c_str());
    }
    // structures on their own
    {
      Encoder e(c, sc.enc);
      for (unsigned i = 0, m = (unsigned)c.below(4); i < m; i++) part_by_itself(r, e, true, false);
    }
    for (size_t i = 0; i < nals.size(); i++) {
      unsigned t = nal_type(nals[i]);
      if (!is_slice_type(t) || nals[i].size() < 3 || !nals[i][1] || !c.flag()) continue;
      Bytes b(nals[i].begin() + 2, nals[i].end());
      Node x = read_slice_header(b, t, &ws[0].st, false), y = read_slice_header(b, t, &ws[0].st, true);
      if (!same(x, y, "slice_segment_header", &why)) r.fail("part-overloads", "slice header from a buffer and from a reader: %s", why.c_str());
      r.count("slice headers on their own");
    }
    // the overloads that keep the parameter sets themselves
    if (c.chance(200)) {
      Packed p = c.flag() ? pack_annexb(r, us, nals, true) : pack_len(r, us, nals, 4);
      State st;
      Result q1, q2;
      p.d.own_state = false;
      deliver(p.d, &st, &q1);
      p.d.own_state = true;
      deliver(p.d, &st, &q2);
      if (!same(q1.tree(), q2.tree(), "report", &why)) r.fail("own-state", "with and without a caller's state: %s", why.c_str());
    }
    r.state(mix(hash_bytes(nals[0].data(), std::min<size_t>(nals[0].size(), 40)), n));
    r.st.sim_time += 1000;
  }
}

// C19 ------------------------------------------------------------------
void prop_C19(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  Sender s(r, draw_sender_cfg(r));
  State st;
  Shadow sh(r, &s, O_STATE, "rx");
  unsigned rounds = 4 + (unsigned)c.below(thorough ? 30 : 10);
  bool every = c.chance(300);
  std::string why;
  {
    Encoder e(c, draw_sender_cfg(r).enc);
    for (unsigned i = 0, n = (unsigned)c.below(4); i < n; i++) part_cut_short(r, e);
  }
  for (unsigned k = 0; k < rounds; k++) {
    SpanGuard g(c);
    UP u = s.next();
    bool target = u->kind == K::VPS || u->kind == K::SPS || u->kind == K::PPS || u->kind == K::AUD || u->kind == K::SEI ||
                  (u->kind == K::SLICE && sh.sets_as_coded(*u));
    if (target) {
      std::vector<size_t> cuts;
      size_t mand = (u->mand_bits + 7) / 8;  // raw bytes that must be there
      if (every && mand < 160) {
        for (size_t i = 2; i < mand; i++) cuts.push_back(i);
      } else if (mand > 2) {
        for (int i = 0; i < 3; i++) cuts.push_back(c.flag() ? 2 + c.below(mand - 2) : mand - 1 - c.below(std::min<size_t>(mand - 2, 6)));
        // inside a long element
        for (int i = 0; i < 2 && !u->longs.empty(); i++) {
          auto& x = u->longs[c.below(u->longs.size())];
          size_t lo = x.first / 8 + 1, hi = (x.first + x.second - 1) / 8;
          if (lo <= hi && hi < mand) cuts.push_back(lo + c.below(hi - lo + 1));
        }
      }
      for (size_t cut : cuts) {
        SpanGuard g2(c);
        Bytes raw(u->raw.begin(), u->raw.begin() + (long)cut);
        if (raw.size() * 8 >= u->mand_bits) continue;
        Bytes nal = escape(raw);
        // the transport loses the rest; sometimes the escape byte is the last one left
        if (nal.size() >= 2 && nal[nal.size() - 1] == 0 && nal[nal.size() - 2] == 0 && c.flag()) nal.push_back(3);
        unsigned how = (unsigned)c.below(9);
        if (nal.size() > 65535 && (how == 6 || how == 7)) how = 0;
        Packed p;
        std::vector<UP> us{u};
        std::vector<Bytes> ns{nal};
        static const Bytes aud = {0x46, 0x01, 0x50};
        size_t at = 0;
        switch (how) {
          case 0: p = pack_annexb(r, us, ns, false); break;
          case 1:
            // the tail is lost, the next unit follows
            us.push_back(u);
            ns.push_back(aud);
            p = pack_annexb(r, us, ns, false);
            break;
          case 2: p = pack_len(r, us, ns, 4); break;
          case 3: p = pack_unit(r, u, nal, false); break;
          case 4: p = c.flag() ? pack_unit(r, u, nal, true) : pack_part(r, u, nal); break;
          case 5: p = pack_single(r, u, nal); break;
          case 6:
            if (c.flag()) {
              us.insert(us.begin(), u);
              ns.insert(ns.begin(), aud);
              at = 1;
            }
            p = pack_ap(r, us, ns);
            break;
          case 7: p = pack_hvcc(r, us, ns); break;
          default: {
            // first fragment only
            p.units = us;
            p.nals = ns;
            p.at = {0};
            p.d.car = Car::RTP;
            Bytes& b = p.d.buf;
            b.push_back((uint8_t)((nal[0] & 0x81) | 49 << 1));
            b.push_back(nal[1]);
            b.push_back((uint8_t)(0x80 | u->type));
            b.insert(b.end(), nal.begin() + 2, nal.end());
          }
        }
        p.d.opt = draw_opt(c);
        RefFrame f = ref_frame(p.d);
        // trailing zero bytes may count as part of a start code: still a prefix
        if (f.refused || at >= f.units.size() || !f.units[at].report) continue;
        const Bytes& got = f.units[at].raw;
        if (how == 8) {
          if (got.size() > u->raw.size() || got.size() * 8 >= u->mand_bits || memcmp(&got[2], &u->raw[2], got.size() - 2)) continue;
        } else if (got.size() > u->raw.size() || memcmp(got.data(), u->raw.data(), got.size()) || got.size() * 8 >= u->mand_bits) {
          continue;
        }
        r.fault("unit cut short");
        Node before = state_tree(st);
        Result q;
        scribble_stack(g_meter.fill + cut);
        deliver(p.d, &st, &q);
        auto reps = q.reps();
        r.evh("cut", q.tree().hash());
        if (at >= reps.size()) r.fail("not-reported", "a cut unit over %s is not reported", cname(p.d.car));
        static const char* bn[] = {"vps", "sps", "pps", "aud", "sei", "slice_segment_layer"};
        int bi = u->kind == K::VPS ? 0 : u->kind == K::SPS ? 1 : u->kind == K::PPS ? 2 : u->kind == K::AUD ? 3 : u->kind == K::SEI ? 4 : 5;
        const Node* body = reps[at].pay.get(bn[bi]);
        if (body && !body->null() && u->kind == K::SEI) body = body->get("payload_state");
        if (body && !body->null())
          r.fail(std::string("cut-accepted-") + bn[bi], "%s cut to %zu of %zu bytes (%zu bits are mandatory) over %s is reported as decoded",
                 u->brief().c_str(), got.size(), u->raw.size(), u->mand_bits, cname(p.d.car));
        for (auto& x : reps[at].pay.kids)
          if (!x.null() && strcmp(x.name, bn[bi])) r.fail("foreign-payload", "a cut %s reports %s", bn[bi], x.name);
        if (!same(before, state_tree(st), "state", &why))
          r.fail("cut-stored", "%s cut to %zu bytes changes the stored sets: %s", u->brief().c_str(), got.size(), why.c_str());
        r.count("cuts tried");
        r.state(mix(mix(u->kind == K::SLICE ? 6 : u->type, cut), hash_bytes(raw.data(), std::min<size_t>(cut, 48))));
      }
    }
    // then the whole unit arrives, mostly
    if (!c.chance(100)) {
      Packed p = c.flag() ? pack_unit(r, u, u->nal, false) : pack_single(r, u, u->nal);
      Result q;
      deliver(p.d, &st, &q);
      sh.observe(p.d, q, st);
    } else {
      r.fault("packet lost");
    }
    r.st.sim_time += 1000;
  }
}

}  // namespace sim
