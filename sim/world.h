// The simulated world: a sender with its parameter sets, packetisation, damage,
// the reference framing of delivered bytes and the reference receiver.
#pragma once
#include <queue>
#include <unordered_map>

#include "lib.h"
#include "pristine.h"

namespace sim {

using UP = std::shared_ptr<Unit>;

bool compatible(const PpsM& p, const SpsM& s);

// ---------------------------------------------------------------- sender
struct SenderCfg {
  EncCfg enc;
  // relative weights of what is sent once the parameter sets are out
  unsigned near_permille = 0;   // units made like an earlier one but for some draws
  unsigned w_slice = 55, w_vps = 4, w_sps = 5, w_pps = 9, w_aud = 5, w_sei = 9, w_simple = 6, w_repeat = 8;
};
SenderCfg draw_sender_cfg(Run& r);
void maybe_giant(Run& r, SenderCfg& s);   // in a few runs one slice of up to 16 MB

class Sender {
 public:
  Sender(Run& r, const SenderCfg& cfg) : r_(r), cfg_(cfg), enc_(r.ch, cfg.enc) {}
  UP next();
  UP make(K k);  // a fresh unit of this kind (slices need usable sets: may emit a set instead)
  // A unit in which the named element, if it occurs, is coded with a value
  // beyond its limits; not one of the sender's own units. May be null.
  UP strange(K k, const char* element, unsigned skip);
  std::vector<UP> current_sets() const;
  UP lookup(const Bytes& raw) const;   // the unit that has exactly these bytes
  UP by_uid(int uid) const { return uid >= 0 && (size_t)uid < all.size() ? all[(size_t)uid] : nullptr; }
  std::vector<UP> all;
  std::map<unsigned, UP> vps, sps, pps;
  // first fragments of units (RTP FU): hash of unescaped fragment -> unit
  void register_fragment(const Bytes& raw, const UP& u);
  UP lookup_fragment(const Bytes& raw) const;

 private:
  UP keep(Unit u);
  UP slice_or_set();
  template <class F>
  Unit coded(K k, F f);
  Run& r_;
  SenderCfg cfg_;
  Encoder enc_;
  std::map<K, std::vector<std::pair<size_t, size_t>>> drawn_;   // tape of each unit made
  std::unordered_multimap<uint64_t, UP> index_;
  std::unordered_multimap<uint64_t, std::pair<Bytes, UP>> frags_;
};

// ---------------------------------------------------------------- packets
struct Packed {
  Delivery d;
  std::vector<UP> units;        // what it carries, in order
  std::vector<size_t> at;       // offset of each unit's bytes in d.buf
  std::vector<Bytes> nals;      // the bytes carried for each unit (damaged or not)
  Node expect_top;              // hvcC fields / FU flags, when intact
  bool first_fragment = false, fragment = false;
  bool damaged = false;         // framing-level damage
};

struct PackCfg {
  unsigned w_annexb = 4, w_len = 3, w_unit = 3, w_unesc = 1, w_single = 3, w_ap = 2, w_fu = 2, w_hvcc = 1, w_part = 2;
  bool junk = true;   // bytes before the first start code
  bool own_state = false;
};
PackCfg draw_pack_cfg(Run& r);

Opt draw_opt(Choices& c);
// `nals`: the bytes to carry (usually units[i]->nal).
Packed pack_annexb(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals, bool junk);
Packed pack_len(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals, unsigned width);
Packed pack_unit(Run& r, const UP& u, const Bytes& nal, bool unescaped);
Packed pack_part(Run& r, const UP& u, const Bytes& nal);
Packed pack_single(Run& r, const UP& u, const Bytes& nal);
Packed pack_ap(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals);
std::vector<Packed> pack_fu(Run& r, Sender* s, const UP& u, const Bytes& nal);
Packed pack_hvcc(Run& r, const std::vector<UP>& us, const std::vector<Bytes>& nals);
// A random way to deliver these units with the given weights.
std::vector<Packed> packetise(Run& r, Sender* s, const std::vector<UP>& us, const std::vector<Bytes>& nals, const PackCfg& pc);
std::vector<Bytes> nals_of(const std::vector<UP>& us);

// Damage some bytes; returns the kind (never nullptr). The result may be equal
// to the input only by accident.
const char* damage(Run& r, Bytes& b, bool keep_header = false);

// ---------------------------------------------------------------- reference framing
struct RU {
  size_t off = 0, len = 0;
  Bytes raw;              // unescaped bytes, header included
  bool report = true;     // false: too short to be a NAL unit
  bool fu = false;        // first fragment: raw is rebuilt, only a prefix of the unit
  bool fu_rest = false;   // later fragment: nothing to parse
};
struct RefFrame {
  bool refused = false;     // the whole delivery yields no result
  std::vector<RU> units;    // also the units seen before a refusal
  Node top;                 // expected packet-level fields (may be null)
};
RefFrame ref_frame(const Delivery& d);
struct RefIndex {
  size_t start, payload, size;
};
std::vector<RefIndex> ref_split(const uint8_t* p, size_t n);

// ---------------------------------------------------------------- reference receiver
struct Slot {
  Bytes raw;
  UP unit;     // the sender's unit with these bytes, if any
  Node tree;   // as reported when it was accepted
  uint64_t tree_hash = 0;
};
enum Oracle : unsigned {
  O_TREE = 1,     // intact units match what the sender coded (C01)
  O_STATE = 2,    // stored sets equal the reference (C02)
  O_FRESH = 4,    // every report equals a fresh receiver's (C08)
  O_FRAME = 8,    // number, order, offset and length of the units (C03, C04)
  O_DIFF = 16,    // slices decoded with other sets equal a fresh receiver's
  O_HDR = 32,     // header fields
  O_PLEN = 64,    // parsed length
  O_SUM = 128,    // checksum
  O_TOP = 256,    // packet-level fields (RTP, hvcC)
  O_PRISTINE = 512,  // some reports equal those of a process that never parsed before (C08)
};

class Shadow {
 public:
  Shadow(Run& r, Sender* s, unsigned oracles, const char* name) : r_(r), s_(s), o_(oracles), name_(name) {}
  void reset() { vps.clear(); sps.clear(); pps.clear(); }
  // Checks a whole delivery's result and tracks the stored sets.
  void observe(const Delivery& d, const Result& res, const State& st);
  void observe_unit(const RU& u, const Rep& rep, const Opt* opt, bool has_meta);
  void check_state(const State& st, const char* when);
  // parse `raw` on a state holding just the current sets
  Rep fresh(const RU& u, Node* state_after = nullptr, uint64_t order_seed = 0);
  void feed_sets(State* st, uint64_t order_seed) const;
  std::map<uint32_t, Slot> vps, sps, pps;
  std::vector<PristineItem> for_new_process;
  void ask_new_process();
  uint64_t intact = 0, damaged = 0, refused_missing = 0;
  uint64_t sets_hash() const;
  // the sets a slice needs are stored exactly as they were when it was coded
  bool sets_as_coded(const Unit& u) const;

 private:
  void accept(std::map<uint32_t, Slot>& m, const char* kind, const RU& u, const Node& tree, const UP& prov);
  void resolve_partial(const RefFrame& f, const State& st);
  Run& r_;
  Sender* s_;
  unsigned o_;
  std::string name_;
};

// One syntax structure on its own, through both of its parsers: they agree with
// each other (agree), and intact they report what was coded (coded).
void part_by_itself(Run& r, Encoder& e, bool agree, bool coded);
// ... and cut short it is refused by both.
void part_cut_short(Run& r, Encoder& e);

uint32_t ref_checksum(const Bytes& raw);
std::string sum_text(uint32_t v);

}  // namespace sim
