// C13, C14: file reading and the command-line tool, as real processes on a
// simulated kernel.
#include <limits.h>
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>

#include "h265_common.h"
#include "session.h"
#include "simos.h"

namespace sim {

extern std::string g_cli, g_reader, g_scratch;

namespace {

Bytes pattern(uint64_t seed, size_t n) {
  Bytes b(n);
  uint64_t s = seed;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = splitmix64(s);
    for (size_t k = 0; k < 8 && i + k < n; k++) b[i + k] = (uint8_t)(v >> (8 * k));
  }
  return b;
}

// Sizes around the places where buffered reading changes its ways.
size_t draw_size(Choices& c, size_t big) {
  switch (c.below(6)) {
    case 0: return c.below(40);
    case 1: return c.below(9000);
    case 2: return 4096 * (1 + c.below(20)) + c.below(5) - 2;
    case 3: return 65536 * (1 + c.below(3)) + c.below(5) - 2;
    case 4: return c.below(300000);
    default: return std::min<size_t>(big, (1u << 20) * (1 + c.below(3)) + c.below(5) - 2);
  }
}

bool draw_faults(Choices& c, OsCfg& k, bool writes, bool errors_only_late) {
  (void)errors_only_late;
  static const unsigned sh[] = {0, 50, 300, 900};
  k.short_read = sh[c.below(4)];
  k.short_write = writes ? sh[c.below(4)] : 0;
  if (c.chance(400)) return false;
  // one or two kinds of errors, each rare or certain
  static const unsigned lv[] = {20, 100, 400};
  for (unsigned i = 0, n = 1 + (unsigned)c.below(2); i < n; i++) {
    unsigned v = lv[c.below(3)];
    switch (c.below(writes ? 10 : 7)) {
      case 0: k.eio_read = v; break;
      case 1: k.eintr = v; break;
      case 2: k.shrink = v; break;
      case 3: k.grow = v; break;
      case 4: k.seek_fail = v; break;
      case 5: k.open_fail = v; break;
      case 6: k.stat_fail = v; break;
      case 7: k.eio_write = v; break;
      case 8: k.close_fail = 500 + v; break;
      default: {
        uint64_t cap = c.flag() ? c.below(6000) : c.below(100000);
        for (auto& f : k.files) f.second->capacity = cap;
        if (k.out) k.out->capacity = cap;
        break;
      }
    }
  }
  return true;
}

// What the file held at some moment: before or after somebody changed it, or a
// prefix of what was appended while it was read.
bool held(const OsFile& f, const uint8_t* p, size_t n) {
  auto eq = [&](const Bytes& b) { return b.size() == n && (n == 0 || !memcmp(b.data(), p, n)); };
  if (eq(f.data)) return true;
  if (!f.changed) return false;
  if (eq(f.before_change)) return true;
  if (f.data.size() > f.before_change.size() && n > f.before_change.size() && n < f.data.size()) return !memcmp(f.data.data(), p, n);
  return false;
}

std::string my_dir() { return g_scratch + "/os." + std::to_string(getpid()); }
struct DirGuard {
  std::string d;
  ~DirGuard() { rmdir(d.c_str()); }
};

void ended_well(Run& r, const OsResult& q, const char* what) {
  if (q.stuck) r.fail("no-progress", "%s does not come to an end", what);
  if (!q.exited) r.fail("killed", "%s was killed by signal %d", what, q.sig);
  if (q.code >= 96 && q.code <= 99) fatal("infra", ("the traced program could not be run: " + std::to_string(q.code)).c_str());
}

}  // namespace

void prop_C13(Run& r, bool thorough) {
  Choices& c = r.ch;
  if (access(g_reader.c_str(), X_OK)) fatal("infra", "no reader program");
  OsCfg k;
  k.prog = g_reader;
  k.dir = my_dir();
  DirGuard dg{k.dir};
  auto out = std::make_shared<OsFile>();
  out->kind = OsFile::FIFO;
  out->reliable = true;
  k.out = out;
  auto f = std::make_shared<OsFile>();
  f->data = pattern(c.below(1u << 20), draw_size(c, thorough ? 4u << 20 : 3u << 20));
  if (c.chance(100)) f->data.clear();
  static const char* names[] = {"file", "standard input (pipe)", "standard input (file)", "fifo", "directory", "missing"};
  size_t how = c.chance(550) ? 0 : c.below(6);
  bool by_name = how == 0 || how >= 3;
  if (how == 1 || how == 3) f->kind = OsFile::FIFO;
  if (how == 4) {
    f->kind = OsFile::DIR;
    f->data.clear();
    static const uint64_t ds[] = {0x7fffffffffffffffull, 0, 4096, 40, 2147483647};
    f->dir_size = ds[c.below(5)];
  }
  if (how == 5) {
    f->kind = OsFile::MISSING;
    f->data.clear();
  }
  // an earlier call may have filled the vector
  if (c.chance(300)) {
    auto e = std::make_shared<OsFile>();
    e->data = pattern(99, 1 + c.below(8000));
    k.files["before.bin"] = e;
    k.args.push_back("before.bin");
    r.probe("vector reused from an earlier call");
  }
  if (by_name) {
    k.files["in.bin"] = f;
    k.args.push_back("in.bin");
  } else {
    k.in = f;
    k.args.push_back(c.flag() ? "-" : "");
    if (c.chance(50)) k.in = f;
  }
  bool errors = draw_faults(c, k, false, false);
  r.ev("%s of %zu bytes, %s", names[how], f->data.size(), errors ? "errors possible" : "no errors");
  std::string probe = std::string("input: ") + names[how];
  r.probe(probe.c_str());
  Bytes original = f->data;
  OsResult q = run_prog(r, k);
  ended_well(r, q, "ReadFile");
  if (q.code) r.fail("killed", "ReadFile ended the process with status %d", q.code);
  const Bytes& o = out->data;
  size_t nl = std::find(o.begin(), o.end(), '\n') - o.begin();
  std::string head(o.begin(), o.begin() + (long)std::min(nl, o.size()));
  bool ok = head.substr(0, 5) == "read ";
  if (!ok && head.substr(0, 7) != "failed ") fatal("infra", "the reader's report is missing");
  r.ev("ReadFile %s", head.c_str());
  r.count(ok ? "reads that succeeded" : "reads that failed");
  if (ok) {
    size_t n = o.size() - nl - 1;
    if (n != strtoull(head.c_str() + 5, nullptr, 10)) fatal("infra", "the reader's report is cut short");
    if (f->kind == OsFile::DIR) r.fail("directory-read", "reading a directory succeeded with %zu bytes", n);
    if (how == 5) r.fail("missing-read", "reading a missing file succeeded with %zu bytes", n);
    if (!held(*f, &o[nl] + 1, n)) {
      size_t d = 0;
      while (d < n && d < original.size() && o[nl + 1 + d] == original[d]) d++;
      r.fail("wrong-bytes", "ReadFile of the %s succeeded with %zu bytes that it never held (%zu bytes; first difference at %zu)", names[how], n,
             original.size(), d);
    }
  } else {
    bool may = q.hard || how >= 3 || (how == 0 && original.empty());
    if (!may) r.fail("spurious-failure", "ReadFile of the %s of %zu bytes failed although no error happened", names[how], original.size());
  }
  r.state(mix(mix(how * 8 + ok * 4 + q.hard, original.size()), q.calls));
}

// C14 ------------------------------------------------------------------
namespace {

struct Mem {
  char* p = nullptr;
  size_t n = 0;
  FILE* f;
  Mem() { f = open_memstream(&p, &n); }
  std::string take() {
    fclose(f);
    std::string s(p, n);
    free(p);
    return s;
  }
};

struct CliOpt {
  bool has_in = false, has_hvcc = false;
  bool dump_length = false, one_line = true, contents = false;
  Opt opt;
  int width = -1;
  int fps = 30;
};

// What the library reports for these inputs and options. False: the input is
// refused.
bool expected_output(const CliOpt& o, const Bytes& in, const Bytes& hvcc, std::string* out) {
  State st;
  Mem m;
  int indent = o.one_line ? -1 : 0;
  bool ok = true;
  if (o.has_hvcc) {
    auto b = hn::H265ConfigurationBoxParser::ParseConfigurationBox(hvcc.data(), hvcc.size(), &st, o.opt);
    if (b) {
      b->fdump(m.f, indent, o.opt);
      fprintf(m.f, "\n");
    } else {
      ok = false;
    }
  }
  if (ok && o.has_in) {
    auto bs = o.width < 0 ? hn::H265BitstreamParser::ParseBitstream(in.data(), in.size(), &st, o.opt)
                          : hn::H265BitstreamParser::ParseBitstreamNALULength(in.data(), in.size(), (size_t)o.width, &st, o.opt);
    if (o.dump_length)
      fprintf(m.f,
              "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_slice_segment_in_pic_flag,"
              "slice_segment_address,slice_pic_order_cnt_lsb\n");
    size_t nal = 0, frame = 0, bytes = 0;
    unsigned last = 0;
    auto end_frame = [&] {
      fprintf(m.f, ",%zu,%u,frame,,%zu,,,\n", frame, last, bytes * 8 * (size_t)o.fps);
      frame++;
      bytes = 0;
    };
    for (auto& u : bs->nal_units) {
      if (!o.dump_length) {
        u->fdump(m.f, indent, o.opt);
        if (o.contents) {
          fprintf(m.f, " contents {");
          for (size_t i = 0; i < u->length && u->offset + i < in.size(); i++)
            fprintf(m.f, " %02x%s", in[u->offset + i], i % 16 == 15 ? " " : "");
          fprintf(m.f, " }");
        }
        fprintf(m.f, "\n");
        continue;
      }
      unsigned t = u->nal_unit_header->nal_unit_type;
      std::string a, b, d;
      if (t <= 9 || (t >= 16 && t <= 21)) {
        auto& l = u->nal_unit_payload->slice_segment_layer;
        bool first = false;
        if (l && l->slice_segment_header) {
          auto& h = *l->slice_segment_header;
          first = h.first_slice_segment_in_pic_flag == 1;
          a = std::to_string((int)h.first_slice_segment_in_pic_flag);
          b = std::to_string((int)h.slice_segment_address);
          d = std::to_string((int)h.slice_pic_order_cnt_lsb);
        }
        if (first && bytes > 0) end_frame();
        last = t;
        bytes += u->length;
      }
      fprintf(m.f, "%zu,%zu,%u,%s,%zu,,%s,%s,%s\n", nal++, frame, t, hn::NalUnitTypeToString(t).c_str(), u->length, a.c_str(), b.c_str(), d.c_str());
    }
    if (o.dump_length && bytes > 0) end_frame();
  }
  *out = m.take();
  return ok;
}

}  // namespace

void prop_C14(Run& r, bool thorough) {
  Choices& c = r.ch;
  if (access(g_cli.c_str(), X_OK)) fatal("infra", "no command-line tool");
  OsCfg k;
  k.prog = g_cli;
  k.dir = my_dir();
  DirGuard dg{k.dir};
  CliOpt o;
  o.opt.add_offset = o.opt.add_length = o.opt.add_parsed_length = o.opt.add_checksum = o.opt.add_resolution = false;
  auto in = std::make_shared<OsFile>(), hv = std::make_shared<OsFile>(), of = std::make_shared<OsFile>(), so = std::make_shared<OsFile>();
  so->kind = c.flag() ? OsFile::FIFO : OsFile::REG;
  k.out = so;
  Sender s(r, draw_sender_cfg(r));
  // arguments, in any order
  std::vector<std::vector<std::string>> args;
  bool usage_error = false;
  o.has_hvcc = c.chance(250);
  o.has_in = !o.has_hvcc || c.chance(800);
  bool in_stdin = o.has_in && c.chance(250);
  bool hv_stdin = o.has_hvcc && !in_stdin && c.chance(60);
  static const int ws[] = {4, 2, 1, 8, 0, 3, 5, INT_MAX};
  if (o.has_in && c.chance(350)) o.width = ws[c.chance(800) ? c.below(4) : c.below(8)];
  if (o.has_hvcc) {
    std::vector<UP> us;
    for (unsigned i = 0, n = 1 + (unsigned)c.below(6); i < n; i++) us.push_back(s.next());
    hv->data = pack_hvcc(r, us, nals_of(us)).d.buf;
    if (c.chance(150)) r.fault(damage(r, hv->data));
    if (c.chance(40)) hv->data.clear();
  }
  if (o.has_in) {
    unsigned n = 1 + (unsigned)c.below(thorough ? 40 : 16);
    std::vector<UP> us;
    for (unsigned i = 0; i < n; i++) us.push_back(s.next());
    std::vector<Bytes> nals = nals_of(us);
    for (auto& b : nals)
      if (c.chance(60)) r.fault(damage(r, b));
    if (c.chance(150)) {
      // a big unit the parser has little to say about
      size_t big = draw_size(c, 3u << 20);
      Bytes f{38 << 1, 1};
      f.resize(2 + big, 0xff);
      UP u = us[0];
      us.push_back(u);
      nals.push_back(f);
      r.probe("large input");
    }
    Packed p;
    if (o.width < 0) {
      p = pack_annexb(r, us, nals, true);
    } else if (o.width == 0) {
      p = pack_unit(r, us[0], nals[0], false);
    } else {
      unsigned w = o.width == 1 || o.width == 2 || o.width == 4 || o.width == 8 ? (unsigned)o.width : 4;
      if (w < 4)
        for (auto& b : nals)
          if (b.size() >= 1ull << (8 * w)) b.resize((1ull << (8 * w)) - 1);
      p = pack_len(r, us, nals, w);
    }
    in->data = p.d.buf;
    if (c.chance(100)) r.fault(damage(r, in->data));
    if (c.chance(30)) in->data.clear();
  }
  if (o.has_in) {
    if (in_stdin) {
      in->kind = c.flag() ? OsFile::FIFO : OsFile::REG;
      k.in = in;
      args.push_back(c.flag() ? std::vector<std::string>{"-i", "-"} : std::vector<std::string>{"--infile", "-"});
    } else {
      static const OsFile::Kind ks[] = {OsFile::REG, OsFile::MISSING, OsFile::DIR};
      in->kind = ks[c.chance(960) ? 0 : c.below(3)];
      if (in->kind != OsFile::REG) in->data.clear();
      in->dir_size = c.flag() ? 0x7fffffffffffffffull : 4096;
      k.files["in.h265"] = in;
      args.push_back(c.flag() ? std::vector<std::string>{"-i", "in.h265"} : std::vector<std::string>{"--infile=in.h265"});
    }
  }
  if (o.has_hvcc) {
    if (hv_stdin) {
      k.in = hv;
      hv->kind = c.flag() ? OsFile::FIFO : OsFile::REG;
      args.push_back({"--hvcc-file", "-"});
    } else {
      k.files["box.hvcc"] = hv;
      args.push_back({"--hvcc-file", "box.hvcc"});
    }
  }
  bool to_file = c.chance(500);
  if (to_file) {
    if (c.flag()) {
      // an older output file is in the way
      of->data = pattern(5, c.below(30000));
      r.probe("older output file present");
    } else {
      of->kind = OsFile::MISSING;
    }
    k.files["out.txt"] = of;
    args.push_back(c.flag() ? std::vector<std::string>{"-o", "out.txt"} : std::vector<std::string>{"--outfile", "out.txt"});
  } else if (c.chance(200)) {
    args.push_back({"-o", "-"});
  }
  if (o.width >= 0) args.push_back({"--nalu-length-bytes", std::to_string(o.width)});
  auto flag = [&](bool* v, const char* on, const char* off) {
    switch (c.below(6)) {
      case 1:
      case 2: *v = true; args.push_back({on}); break;
      case 3: *v = false; args.push_back({off}); break;
      case 4: *v = true; args.push_back({off, on}); break;
      case 5: *v = false; args.push_back({on, off}); break;
      default: break;
    }
  };
  flag(&o.one_line, "--as-one-line", "--no-as-one-line");
  flag(&o.opt.add_offset, "--add-offset", "--no-add-offset");
  flag(&o.opt.add_length, "--add-length", "--no-add-length");
  flag(&o.opt.add_parsed_length, "--add-parsed-length", "--no-add-parsed-length");
  flag(&o.opt.add_checksum, "--add-checksum", "--no-add-checksum");
  flag(&o.opt.add_resolution, "--add-resolution", "--no-add-resolution");
  flag(&o.contents, "--add-contents", "--no-add-contents");
  if (c.chance(250)) {
    o.dump_length = true;
    args.push_back({"--dump-length"});
    if (c.flag()) {
      static const int fs[] = {25, 60, 0, 1, INT_MAX};
      o.fps = fs[c.below(5)];
      args.push_back({"--frames-per-second", std::to_string(o.fps)});
    }
  } else if (c.chance(200)) {
    args.push_back({"--dump-all"});
  }
  if (c.chance(100)) args.push_back({c.flag() ? "--quiet" : "-d"});
  if (c.chance(40)) {
    static const char* bad[] = {"--no-such-option", "-Z", "--nalu-length-bytes=x", "--frames-per-second=-1", "--nalu-length-bytes=-2",
                                "--frames-per-second=99999999999999999999"};
    args.push_back({bad[c.below(6)]});
    usage_error = true;
    r.probe("invalid argument");
  }
  for (size_t i = args.size(); i > 1; i--) std::swap(args[i - 1], args[i - 1 - c.below(i)]);
  std::string line;
  for (auto& a : args)
    for (auto& x : a) {
      k.args.push_back(x);
      line += " " + x;
    }
  if (o.contents) o.opt.add_offset = o.opt.add_length = true;
  if (o.dump_length) o.opt.add_length = true;
  bool errors = draw_faults(c, k, true, false);
  r.ev("h265nal%s; in %zuB, box %zuB, %s", line.c_str(), in->data.size(), hv->data.size(), errors ? "errors possible" : "no errors");
  Bytes in0 = in->data, hv0 = hv->data;
  bool in_bad = o.has_in && !in_stdin && in->kind != OsFile::REG;
  // an empty file may be refused
  bool in_empty = o.has_in && !in_stdin && in->data.empty(), hv_empty = o.has_hvcc && !hv_stdin && hv->data.empty();
  OsResult q = run_prog(r, k);
  ended_well(r, q, "the tool");
  const OsFile& got = to_file ? *of : *so;
  r.evh("output", hash_bytes(got.data.data(), got.data.size()));
  r.count(q.code ? "tool runs that failed" : "tool runs that succeeded");
  if (q.code == 0) {
    if (usage_error) r.fail("bad-arguments-accepted", "exit status 0 in spite of invalid arguments:%s", line.c_str());
    if (in_bad) r.fail("unreadable-input-accepted", "exit status 0 although an input cannot be read:%s", line.c_str());
    // any content the inputs held explains the output
    std::vector<const Bytes*> is{&in0}, hs{&hv0};
    if (in->changed) is.push_back(&in->data);
    if (hv->changed) hs.push_back(&hv->data);
    bool match = false, refused = false;
    std::string want, first;
    for (auto* a : is)
      for (auto* b : hs) {
        if (match) break;
        if (!expected_output(o, *a, *b, &want)) {
          refused = true;
          continue;
        }
        match = want == std::string(got.data.begin(), got.data.end());
        if (first.empty()) first = want;
      }
    if (!match) {
      if (refused && first.empty()) r.fail("refused-input-accepted", "exit status 0 although the library refuses the input:%s", line.c_str());
      size_t d = 0;
      while (d < first.size() && d < got.data.size() && (uint8_t)first[d] == got.data[d]) d++;
      r.fail("wrong-output", "exit status 0 with an output of %zu bytes, expected %zu; first difference at %zu:%s", got.data.size(), first.size(), d,
             line.c_str());
    }
    if (to_file && !so->data.empty()) r.fail("stray-output", "%zu bytes on standard output besides the output file", so->data.size());
    r.count("outputs compared");
    r.count("output bytes compared", got.data.size());
  } else {
    std::string want;
    bool may = q.hard || usage_error || in_bad || in_empty || hv_empty;
    if (!may) may = !expected_output(o, in0, hv0, &want);
    if (!may) r.fail("spurious-failure", "exit status %d although nothing went wrong:%s", q.code, line.c_str());
  }
  r.state(mix(hash_bytes(line.data(), line.size()), q.calls * 2 + (q.code != 0)));
}

}  // namespace sim
