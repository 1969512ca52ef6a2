// The receiver's side: calls into the library under test.
#pragma once
#include "enc.h"
#include "hooks.h"
#include "visit.h"

namespace sim {
namespace hn = h265nal;
using State = hn::H265BitstreamParserState;
using Opt = hn::ParsingOptions;

// How bytes reach the parser.
enum class Car {
  ANNEXB,   // start codes, ParseBitstream
  LEN,      // length prefixes of `width` bytes, ParseBitstreamNALULength
  UNIT,     // ParseNalUnit
  UNESC,    // ParseNalUnitUnescaped
  RTP,      // ParseRtp
  HVCC,     // ParseConfigurationBox
  BODY,     // the header's and the payload's own parsers, one unit
  PART,     // the header's and the syntax structure's own parsers; the caller stores sets
};
const char* cname(Car c);

struct Delivery {
  Car car = Car::UNIT;
  unsigned width = 4;   // LEN; RTP: 1 = through the packet kind's own parser
  Bytes buf;
  Opt opt;
  bool own_state = false;  // ANNEXB/LEN: the overload with an internal state
};

// One NAL unit as reported by the library.
struct Rep {
  bool null = true;
  Node hdr, pay;
  size_t off = 0, len = 0, plen = 0;
  bool meta = false;      // offset/length/parsed length exist in this report
  bool has_sum = false;
  std::string sum;
  bool from_fu = false;
};

struct Result {
  std::unique_ptr<hn::H265BitstreamParser::BitstreamState> bs;
  std::unique_ptr<hn::H265NalUnitParser::NalUnitState> nu;
  std::unique_ptr<hn::H265RtpParser::RtpState> rtp;
  std::shared_ptr<hn::H265ConfigurationBoxParser::ConfigurationBoxState> box;
  Car car = Car::UNIT;
  bool parts = false;  // `nu` was put together here: no metadata
  bool null() const { return !bs && !nu && !rtp && !box; }
  Node tree() const;               // everything reported
  std::vector<Rep> reps() const;   // per NAL unit
  // what: indentation -1 (one line) or >=0
  std::string dump(const Opt& opt, int indent) const;
};

// Calls the entry point for the carrier. The buffer given to the library is an
// exactly sized heap block; the call fails (false) if the library changed it.
bool deliver(const Delivery& d, State* st, Result* out);
bool deliver(Car car, unsigned width, const uint8_t* p, size_t n, State* st, const Opt& opt, bool own_state, Result* out);

Node state_tree(const State& st);
std::string dump_unit(const hn::H265NalUnitParser::NalUnitState& u, const Opt& opt, int indent);
Rep rep_of(const hn::H265NalUnitParser::NalUnitState* u);

// The header of a unit, decoded from its two bytes.
Node ref_header(const uint8_t* p);
inline unsigned nal_type(const Bytes& b) { return b.size() ? (b[0] >> 1) & 63 : 0; }
inline bool is_slice_type(unsigned t) { return t <= 9 || (t >= 16 && t <= 21); }

// One syntax structure, by the parser that takes a byte buffer (escaped, exactly
// sized) or the one that takes a reader (standing at bit `at` of `bits`).
// Both null when refused; the reader one tells how far it read.
Node read_part(unsigned kind, const std::vector<uint64_t>& a, const Bytes& bytes,
               const std::vector<std::pair<Bytes, size_t>>& before);
Node read_part(unsigned kind, const std::vector<uint64_t>& a, const Bytes& bits, size_t at,
               const std::vector<std::pair<Bytes, size_t>>& before, size_t* end);
const char* part_name(unsigned kind);
// A slice segment header by either of its parsers.
Node read_slice_header(const Bytes& bytes, unsigned type, State* st, bool reader);

// Library objects as trees, without pulling the generated visitors everywhere.
Node tree_of(const hn::H265VpsParser::VpsState& x);
Node tree_of(const hn::H265SpsParser::SpsState& x);
Node tree_of(const hn::H265PpsParser::PpsState& x);
Node tree_of(const hn::H265NalUnitPayloadParser::NalUnitPayloadState& x);
Node tree_of(const hn::H265NalUnitHeaderParser::NalUnitHeaderState& x);

}  // namespace sim
