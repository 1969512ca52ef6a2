// C16: dumps are complete, faithful and free of side effects.
#include <set>

#include <unistd.h>

#include "session.h"

namespace sim {

namespace {

// ---------------------------------------------------------------- dump text
struct D {
  std::string key;           // without index and colon
  std::vector<uint64_t> idx;
  std::string value;         // scalar
  bool block = false;
  bool array = false;
  std::vector<std::string> items;  // array: tokens, nested braces kept
  std::vector<D> kids;
};

void split_key(std::string s, D* d) {
  while (!s.empty() && (s.back() == ' ' || s.back() == ':')) s.pop_back();
  size_t b = s.find('[');
  if (b != std::string::npos) {
    std::string t = s.substr(b);
    s = s.substr(0, b);
    size_t i = 0;
    while (i < t.size() && t[i] == '[') {
      d->idx.push_back(strtoull(t.c_str() + i + 1, nullptr, 10));
      size_t e = t.find(']', i);
      if (e == std::string::npos) break;
      i = e + 1;
    }
    s += t.substr(i);   // display_primaries[0]_x
  }
  d->key = s;
}

// Parses the multi-line form. Returns false with the offending line.
bool parse_dump(const std::string& text, D* root, std::string* bad) {
  std::vector<D*> st{root};
  root->block = true;
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == std::string::npos) e = text.size();
    std::string l = text.substr(i, e - i);
    i = e + 1;
    for (;;) {
      size_t a = l.find_first_not_of(' ');
      if (a == std::string::npos) {
        l.clear();
        break;
      }
      l = l.substr(a);
      while (!l.empty() && l.back() == ' ') l.pop_back();
      if (l[0] != '}') break;
      if (st.size() < 2) {
        *bad = "unbalanced: " + l;
        return false;
      }
      st.pop_back();
      l = l.substr(1);
      // the library itself prints "}rtp_single {"
      if (!l.empty() && l[0] != ' ' && l[0] != '}' && l.compare(0, 4, "rtp_")) {
        *bad = "no separator: }" + l;
        return false;
      }
    }
    if (l.empty()) continue;
    D d;
    size_t o = l.find('{');
    if (o == std::string::npos) {
      size_t c = l.find(": ");
      if (c == std::string::npos && l.back() == ':') c = l.size() - 1;
      if (c == std::string::npos) {
        *bad = l;
        return false;
      }
      split_key(l.substr(0, c), &d);
      d.value = c + 2 <= l.size() ? l.substr(c + 2) : "";
      st.back()->kids.push_back(std::move(d));
      continue;
    }
    split_key(l.substr(0, o), &d);
    int depth = 0;
    std::string tok;
    for (size_t k = o; k < l.size(); k++) {
      char ch = l[k];
      if (ch == '{' || ch == '}' || ch == ' ') {
        if (!tok.empty()) d.items.push_back(tok);
        tok.clear();
        if (ch == '{') depth++;
        if (ch == '}') depth--;
        if (ch != ' ') d.items.push_back(std::string(1, ch));
      } else {
        tok += ch;
      }
    }
    if (!tok.empty()) d.items.push_back(tok);
    if (depth == 0) {
      d.array = true;
      d.items.erase(d.items.begin());
      d.items.pop_back();
      st.back()->kids.push_back(std::move(d));
    } else if (depth == 1 && d.items.size() == 1) {
      d.block = true;
      d.items.clear();
      st.back()->kids.push_back(std::move(d));
      st.push_back(&st.back()->kids.back());
    } else {
      *bad = l;
      return false;
    }
  }
  if (st.size() != 1) {
    *bad = "unclosed block";
    return false;
  }
  return true;
}

std::string squeeze(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '\n') c = ' ';
    if (c == ' ' && (o.empty() || o.back() == ' ')) continue;
    o += c;
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}

// fields printed whenever their block is (A), or whenever they hold something (N)
struct Must {
  const char* block;
  const char* field;
  char how;
  const char* guard;  // only when this field of the same block is zero (0) or not (1)
  int when;
};
const Must kMust[] = {
#include "dump_fields.inc"
    {"", "", 0, "", 0}};

std::map<std::string, std::map<std::string, const Must*>> must_table() {
  std::map<std::string, std::map<std::string, const Must*>> m;
  for (auto& x : kMust)
    if (x.how) m[x.block][x.field] = &x;
  return m;
}

bool holds_something(const Node& n) {
  switch (n.kind) {
    case Node::kInt: return n.v != 0;
    case Node::kInts: return !n.iv.empty();
    case Node::kList: return !n.kids.empty();
    case Node::kObj: return true;
    case Node::kStr: return !n.s.empty();
    default: return false;
  }
}

// a list without any element may leave no trace in the text
bool empty_list(const Node& n, bool top = true) {
  if (n.null()) return !top;
  if (n.kind == Node::kInts) return n.iv.empty();
  if (n.kind != Node::kList) return false;
  for (auto& k : n.kids)
    if (!empty_list(k, false)) return false;
  return true;
}

bool number(const std::string& t, int64_t* v, bool* negative) {
  if (t.empty()) return false;
  char* e;
  *negative = t[0] == '-';
  errno = 0;
  uint64_t x = strtoull(t.c_str() + (*negative ? 1 : 0), &e, t.compare(0, 2, "0x") ? 10 : 16);
  if (*e || errno) return false;
  *v = *negative ? (int64_t)(0 - x) : (int64_t)x;
  return true;
}

// Counts and sizes whose legal range needs all 32 bits.
bool full_range(const std::string& key) {
  static const std::set<std::string> k = {"bit_rate_value_minus1", "cpb_size_value_minus1", "cpb_size_du_value_minus1", "bit_rate_du_value_minus1",
                                          "vps_max_latency_increase_plus1", "sps_max_latency_increase_plus1", "entry_point_offset_minus1",
                                          "vps_num_units_in_tick", "vps_time_scale", "vps_num_ticks_poc_diff_one_minus1", "vui_num_units_in_tick",
                                          "vui_time_scale", "vui_num_ticks_poc_diff_one_minus1"};
  return k.count(key) != 0;
}

bool num_equal(const std::string& key, const std::string& t, int64_t held) {
  int64_t v;
  bool neg;
  if (!number(t, &v, &neg)) return false;
  if (v == held) return true;
  // no other legal value reaches 2^31: one that is printed signed is let pass
  return held > INT32_MAX && held <= (int64_t)UINT32_MAX && v < 0 && (int64_t)(int32_t)(uint32_t)held == v && !full_range(key);
}

struct Learn {
  // block -> field -> {printed & nonzero, missing & nonzero, printed & zero, missing & zero}
  std::map<std::string, std::map<std::string, std::array<uint64_t, 4>>> t;
  std::set<std::string> unmapped;
};
Learn* g_learn = nullptr;

class Check {
 public:
  Check(Run& r, const Opt& o) : r_(r), opt_(o) {}
  uint64_t values = 0;

  void block(const D& d, const Node& l, const std::string& name, const std::string& path) {
    std::map<std::string, size_t> cursor;   // lists whose elements are printed one by one
    std::set<std::string> printed;
    for (auto& k : d.kids) {
      std::string p = path + "/" + k.key;
      if (name == "nal_unit" && !k.block && (k.key == "offset" || k.key == "length" || k.key == "parsed_length" || k.key == "checksum")) {
        option(k, l, p);
        continue;
      }
      if (k.block) {
        sub(k, l, name, p, &cursor, &printed);
        continue;
      }
      const Node* f = l.get(k.key.c_str());
      std::string fn = k.key;
      if (!f && name == "rtp_ap" && k.key == "nal_unit_size") {
        const Node* s = l.get("nal_unit_sizes");
        size_t& c = cursor["nal_unit_sizes"];
        if (s && s->kind == Node::kInts) {
          if (c >= s->iv.size()) r_.fail("extra", "%s is printed more often than there are units", p.c_str());
          scalar(k, s->iv[c], p);
          printed.insert("nal_unit_sizes");
        }
        c++;
        continue;
      }
      if (k.array) {
        if (!f) {
          unmapped(p);
          continue;
        }
        printed.insert(fn);
        for (auto x : k.idx) {
          if (f->kind == Node::kList && x < f->kids.size())
            f = &f->kids[x];
          else {
            r_.fail("index", "%s[%" PRIu64 "] is printed but not held", p.c_str(), x);
            return;
          }
        }
        array(k, *f, p);
        continue;
      }
      if (!f) {
        special(k, l, name, p, &printed);
        continue;
      }
      printed.insert(fn);
      const Node* g = f;
      bool leaf = false;
      int64_t v = 0;
      for (size_t n = 0; n < k.idx.size(); n++) {
        uint64_t x = k.idx[n];
        if (g->kind == Node::kInts && x < g->iv.size() && n + 1 == k.idx.size()) {
          v = g->iv[x];
          leaf = true;
        } else if (g->kind == Node::kList && x < g->kids.size()) {
          g = &g->kids[x];
        } else {
          r_.fail("index", "%s[%" PRIu64 "] is printed but not held", p.c_str(), x);
          return;
        }
      }
      if (!leaf) {
        if (g->kind != Node::kInt) {
          unmapped(p);
          continue;
        }
        v = g->v;
      }
      scalar(k, v, p);
    }
    // lists printed element by element are printed whole
    for (auto& c : cursor) {
      const Node* f = l.get(c.first.c_str());
      if (f && c.second != count_elements(*f))
        r_.fail("elements", "%s/%s: %zu of %zu elements are printed", path.c_str(), c.first.c_str(), c.second, count_elements(*f));
    }
    complete(l, name, printed, path);
  }

 private:
  static size_t count_elements(const Node& f) {
    if (f.kind == Node::kInts) return f.iv.size();
    size_t n = 0;
    for (auto& x : f.kids)
      if (x.kind == Node::kList)
        n += count_elements(x);
      else
        n += !x.null();
    return n;
  }
  static const Node* element(const Node& f, size_t* k) {
    for (auto& x : f.kids) {
      if (x.kind == Node::kList) {
        if (auto* y = element(x, k)) return y;
      } else if (!x.null()) {
        if ((*k)-- == 0) return &x;
      }
    }
    return nullptr;
  }

  void unmapped(const std::string& p) {
    if (g_learn) g_learn->unmapped.insert(p);
    r_.count("printed elements without a field of their own");
  }

  void option(const D& k, const Node& l, const std::string& p) {
    bool asked = k.key == "offset" ? opt_.add_offset : k.key == "length" ? opt_.add_length : k.key == "parsed_length" ? opt_.add_parsed_length : opt_.add_checksum;
    if (!asked) r_.fail("option", "%s is printed without having been asked for", p.c_str());
    const Node* f = l.get(k.key.c_str());
    if (!f) return;
    if (f->kind == Node::kStr) {
      if (k.value != "0x" + f->s) r_.fail("value", "%s: %s is printed, %s is held", p.c_str(), k.value.c_str(), f->s.c_str());
    } else if (f->kind == Node::kInt) {
      scalar(k, f->v, p);
    }
    seen_.insert(k.key);
  }

  void scalar(const D& k, int64_t held, const std::string& p) {
    size_t e = k.value.find(' ');
    std::string t = k.value.substr(0, e);
    values++;
    if (!num_equal(k.key, t, held)) r_.fail("value", "%s: %s is printed, %" PRId64 " is held", p.c_str(), k.value.c_str(), held);
    if (e != std::string::npos && k.value[e + 1] == '(') {
      double unit = strstr(k.key.c_str(), "luminance") ? 0.0001 : 0.00002;
      double want = (double)(uint32_t)held * unit, got = strtod(k.value.c_str() + e + 2, nullptr);
      if (got < want - 0.000051 - want * 1e-6 || got > want + 0.000051 + want * 1e-6)
        r_.fail("unit", "%s: %s is printed for %" PRId64, p.c_str(), k.value.c_str(), held);
    }
  }

  void array(const D& k, const Node& f, const std::string& p) {
    size_t at = 0;
    list(k, f, &at, p);
    if (at != k.items.size()) r_.fail("array", "%s prints more values than are held", p.c_str());
  }
  void list(const D& k, const Node& f, size_t* at, const std::string& p) {
    if (f.kind == Node::kInts) {
      for (size_t i = 0; i < f.iv.size(); i++) {
        if (*at >= k.items.size() || k.items[*at] == "}") r_.fail("array", "%s prints %zu of %zu values", p.c_str(), i, f.iv.size());
        values++;
        if (!num_equal(k.key, k.items[*at], f.iv[i]))
          r_.fail("value", "%s: value %zu is printed as %s, %" PRId64 " is held", p.c_str(), i, k.items[*at].c_str(), f.iv[i]);
        (*at)++;
      }
      return;
    }
    if (f.kind == Node::kList) {
      for (auto& x : f.kids) {
        if (*at >= k.items.size() || k.items[*at] != "{") r_.fail("array", "%s prints fewer lists than are held", p.c_str());
        (*at)++;
        list(k, x, at, p);
        if (*at >= k.items.size() || k.items[*at] != "}") r_.fail("array", "%s prints more values than are held", p.c_str());
        (*at)++;
      }
      return;
    }
    unmapped(p);
    *at = k.items.size();
  }

  void sub(const D& k, const Node& l, const std::string& name, const std::string& p, std::map<std::string, size_t>* cursor,
           std::set<std::string>* printed) {
    const Node* f = l.get(k.key.c_str());
    std::string fn = k.key;
    auto alias = [&](const char* n) {
      if (f) return;
      f = l.get(n);
      if (f) fn = n;
    };
    if (k.key == "sei message") alias("sei");
    if (k.key == "nal_unit_header" && name == "rtp_ap" && (*cursor)["#header"]++ > 0) alias("nal_unit_headers");
    cursor->erase(std::string());
    if (k.key == "nal_unit_header") alias("header");
    if (k.key == "nal_unit_payload") alias("nal_unit_payloads");
    if (k.key == "nal_unit") {
      alias("nalUnit");
      alias("nal_units");
    }
    if (k.key == "configuration_box") alias("hvcc");
    if (name == "sei message") alias("payload_state");
    if (!f) {
      unmapped(p + " {");
      return;
    }
    printed->insert(fn);
    if (f->null()) r_.fail("block", "%s is printed but not held", p.c_str());
    if (f->kind == Node::kObj) {
      if (cursor->count("=" + fn)) r_.fail("twice", "%s is printed twice", p.c_str());
      block(k, *f, k.key, p);
      return;
    }
    if (f->kind != Node::kList) {
      unmapped(p + " {");
      return;
    }
    // a block around all elements, or one block per element
    bool whole = k.key.size() > 7 && k.key.compare(k.key.size() - 7, 7, "_vector") == 0;
    if (whole) {
      size_t n = 0;
      for (auto& x : k.kids) {
        size_t z = n++;
        const Node* e = element(*f, &z);
        if (!e) r_.fail("extra", "%s prints more elements than are held", p.c_str());
        block(x, *e, x.key, p + "/" + x.key);
      }
      if (n != count_elements(*f)) r_.fail("elements", "%s: %zu of %zu elements are printed", p.c_str(), n, count_elements(*f));
      return;
    }
    size_t z = (*cursor)[fn]++;
    const Node* e = element(*f, &z);
    if (!e) r_.fail("extra", "%s is printed more often than it is held", p.c_str());
    block(k, *e, k.key, p);
  }

  void special(const D& k, const Node& l, const std::string& name, const std::string& p, std::set<std::string>* printed) {
    if (k.key == "payload_size") {
      const Node* f = l.get("payload");
      if (f && f->kind == Node::kInts) {
        scalar(k, (int64_t)f->iv.size(), p);
        return;
      }
    }
    if (k.key == "uuid_iso_iec_11578") {
      const Node *a = l.get("uuid_iso_iec_11578_1"), *b = l.get("uuid_iso_iec_11578_2");
      if (a && b) {
        printed->insert("uuid_iso_iec_11578_1");
        printed->insert("uuid_iso_iec_11578_2");
        char t[64];
        uint64_t x = (uint64_t)a->v, y = (uint64_t)b->v;
        snprintf(t, sizeof t, "%08" PRIx64 "-%04" PRIx64 "-%04" PRIx64 "-%04" PRIx64 "-%012" PRIx64, x >> 32, (x >> 16) & 0xffff, x & 0xffff,
                 y >> 48, y & 0xffffffffffffull);
        if (k.value != t) r_.fail("value", "%s: %s is printed, %s is held", p.c_str(), k.value.c_str(), t);
        values++;
        return;
      }
    }
    if (k.key == "profile") {
      const Node* f = l.get("profile_type");
      if (f && f->kind == Node::kInt) {
        printed->insert("profile_type");
        std::string t;
        hn::profileTypeToString((hn::ProfileType)f->v, t);
        if (k.value != t) r_.fail("value", "%s: %s is printed for profile %" PRId64 " (%s)", p.c_str(), k.value.c_str(), f->v, t.c_str());
        values++;
        return;
      }
    }
    if (name == "sps" && (k.key == "width" || k.key == "height")) {
      bool w = k.key == "width";
      if (!opt_.add_resolution) r_.fail("option", "%s is printed without having been asked for", p.c_str());
      int64_t chroma = l.geti("chroma_format_idc"), planes = l.geti("separate_colour_plane_flag", 0);
      int64_t unit = w ? (chroma == 1 || chroma == 2 ? 2 : 1) : (chroma == 1 ? 2 : 1);
      (void)planes;
      int64_t v = l.geti(w ? "pic_width_in_luma_samples" : "pic_height_in_luma_samples") -
                  unit * (l.geti(w ? "conf_win_left_offset" : "conf_win_top_offset") + l.geti(w ? "conf_win_right_offset" : "conf_win_bottom_offset"));
      // beyond 32 bits the size means nothing
      if (chroma <= 3 && v >= 0 && v <= INT32_MAX) scalar(k, v, p);
      resolution_++;
      return;
    }
    unmapped(p);
  }

  void complete(const Node& l, const std::string& name, const std::set<std::string>& printed, const std::string& path) {
    if (name == "nal_unit") {
      struct {
        const char* k;
        bool asked;
      } o[] = {{"offset", opt_.add_offset}, {"length", opt_.add_length}, {"parsed_length", opt_.add_parsed_length}, {"checksum", opt_.add_checksum}};
      for (auto& x : o) {
        const Node* f = l.get(x.k);
        if (x.asked && f && !f->null() && !seen_.count(x.k)) r_.fail("option", "%s/%s was asked for but is not printed", path.c_str(), x.k);
      }
      seen_.clear();
    }
    if (name == "sps") {
      if (resolution_ != (opt_.add_resolution ? 2u : 0u)) r_.fail("option", "%s: %u resolution lines", path.c_str(), resolution_);
      resolution_ = 0;
    }
    if (g_learn)
      for (auto& f : l.kids) {
        auto& c = g_learn->t[name][f.name];
        c[(holds_something(f) ? 0 : 2) + (printed.count(f.name) ? 0 : 1)]++;
      }
    static const auto must = must_table();
    auto t = must.find(name);
    if (t == must.end()) return;
    for (auto& f : l.kids) {
      auto m = t->second.find(f.name);
      if (m == t->second.end() || printed.count(f.name)) continue;
      const Must& w = *m->second;
      if (w.how == 'N' && !holds_something(f)) continue;
      if (empty_list(f)) continue;
      if (*w.guard && (l.geti(w.guard, 0) != 0) != (w.when != 0)) continue;
      r_.fail("missing", "%s: %s (%s) is not printed", path.c_str(), f.name, f.brief().c_str());
    }
  }

  Run& r_;
  const Opt& opt_;
  std::set<std::string> seen_;
  unsigned resolution_ = 0;
};

// ---------------------------------------------------------------- sinks that fail
struct Sink {
  size_t room;
  std::string got;
  unsigned calls = 0;
};
ssize_t sink_write(void* c, const char* b, size_t n) {
  Sink* s = static_cast<Sink*>(c);
  s->calls++;
  if (s->got.size() >= s->room) {
    errno = ENOSPC;
    return 0;
  }
  size_t k = std::min(n, s->room - s->got.size());
  s->got.append(b, k);
  return (ssize_t)k;
}

struct Kept {
  std::shared_ptr<Result> res;
  Opt opt;
  int indent;
  std::string text;
  uint64_t tree;
};

class DumpSession : public Session {
 public:
  DumpSession(Run& rr, const SessCfg& cfg) : Session(rr, cfg, "D") {}
  std::vector<Kept> kept;
  uint64_t dumped = 0;

  void deliver_to(Receiver& x, const Packed& p) override {
    Choices& c = r.ch;
    std::string s0;
    for (auto& u : p.units) s0 += " " + u->brief();
    r.ev("t=%" PRIu64 "us %s <- %s %zuB%s:%s", now, x.name.c_str(), cname(p.d.car), p.d.buf.size(), p.damaged ? " damaged" : "",
         s0.substr(0, 300).c_str());
    auto res = std::make_shared<Result>();
    scribble_stack(g_meter.fill);
    Delivery d = p.d;
    if (c.flag()) d.opt = draw_opt(c);
    deliver(d, x.st.get(), res.get());
    r.count("deliveries");
    r.count("bytes", p.d.buf.size());
    Node before = res->tree();
    r.evh("result", before.hash());
    r.state(mix(before.hash(), 3));
    if (res->null()) return;
    Opt opt = c.flag() ? d.opt : draw_opt(c);
    look(*res, before, opt, *x.st, d);
    if (c.chance(150) && kept.size() < 12) {
      int ind = (int)c.below(4) - 1;
      kept.push_back({res, opt, ind, res->dump(opt, ind), before.hash()});
    }
    if (c.chance(100)) again();
  }

  // retained results print as they did before
  void again() {
    if (kept.empty()) return;
    Kept& k = kept[r.ch.below(kept.size())];
    if (k.res->tree().hash() != k.tree) r.fail("result-changed", "a retained result has changed");
    if (k.res->dump(k.opt, k.indent) != k.text) r.fail("later", "a retained result is printed differently after further parsing");
    r.count("retained results printed again");
  }

  void look(const Result& res, const Node& before, const Opt& opt, const State& st, const Delivery& d) {
    Choices& c = r.ch;
    bool watch = c.chance(150);
    uint64_t st0 = watch ? state_tree(st).hash() : 0;
    std::string multi = res.dump(opt, 0), one = res.dump(opt, -1);
    dumped += multi.size();
    r.evh("dump", hash_bytes(multi.data(), multi.size()));
    if (squeeze(multi) != squeeze(one)) {
      std::string a = squeeze(multi), b = squeeze(one);
      size_t k = 0;
      while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
      r.fail("forms", "the one-line and multi-line forms differ: '%s' and '%s'", b.substr(k > 30 ? k - 30 : 0, 80).c_str(),
             a.substr(k > 30 ? k - 30 : 0, 80).c_str());
    }
    // one line means one line per unit
    size_t nl = 0;
    for (char ch : one) nl += ch == '\n';
    if (nl != (res.bs ? res.bs->nal_units.size() : 0)) r.fail("one-line", "the one-line form has %zu line breaks", nl);
    int ind = (int)c.below(4) - 1;
    if (c.chance(300)) {
      std::string t = res.dump(opt, ind);
      if (squeeze(t) != squeeze(one)) r.fail("indent", "the dump at indentation %d has other content", ind);
      if (ind <= 0 && t != (ind < 0 ? one : multi)) r.fail("twice", "dumping twice gives different text");
    }
    D root;
    std::string bad;
    if (!parse_dump(multi, &root, &bad)) r.fail("form", "unreadable dump line: %s", bad.substr(0, 200).c_str());
    Check ck(r, opt);
    if (res.nu) {
      Node top = Node::Obj();
      top.set("nal_unit", *before.get("nal_unit"));
      ck.block(root, top, "#", "");
    } else {
      ck.block(root, before, "#", "");
    }
    r.count("printed values compared", ck.values);
    if (res.bs) {
      // its own dump uses the options it was parsed with
      for (int i : {-1, 0}) {
        char* q = nullptr;
        size_t n = 0;
        FILE* f = open_memstream(&q, &n);
        res.bs->fdump(f, i);
        fclose(f);
        std::string t(q, n);
        free(q);
        if (t != res.dump(d.opt, i)) r.fail("options", "the dump of the whole stream is not made with the options it was parsed with");
      }
    }
    if (c.chance(150)) failing_sink(res, opt, c.flag() ? multi : one);
    if (res.tree().hash() != before.hash()) r.fail("result-changed", "dumping changed the result");
    if (watch && state_tree(st).hash() != st0) r.fail("state-changed", "dumping changed the parser state");
  }

  // a full or unbuffered output: no crash, and what got through is a beginning of the text
  void failing_sink(const Result& res, const Opt& opt, const std::string& text) {
    Choices& c = r.ch;
    Sink s{c.flag() ? (size_t)c.below(text.size() + 1) : text.size() + 100, "", 0};
    cookie_io_functions_t io = {};
    io.write = sink_write;
    FILE* f = fopencookie(&s, "w", io);
    if (!f) return;
    if (c.flag()) setvbuf(f, nullptr, _IONBF, 0);
    bool multi = text.find('\n') != std::string::npos && !(res.bs && text == res.dump(opt, -1));
    int ind = multi ? 0 : -1;
    if (res.bs)
      for (auto& u : res.bs->nal_units) {
        u->fdump(f, ind, opt);
        fprintf(f, "\n");
      }
    if (res.nu) res.nu->fdump(f, ind, opt);
    if (res.rtp) res.rtp->fdump(f, ind, opt);
    if (res.box) res.box->fdump(f, ind, opt);
    fclose(f);
    bool full = s.room < text.size();
    r.fault(full ? "output full" : "unbuffered output");
    std::string want = res.dump(opt, ind);
    if (!full && s.got != want) r.fail("sink", "text was lost on an unbuffered output");
    if (full && s.got.size() > want.size()) r.fail("sink", "more text than the dump has");
  }
};

}  // namespace

void prop_C16(Run& r, bool thorough) {
  Choices& c = r.ch;
  fill_memory(r);
  SessCfg cfg;
  cfg.sc = draw_sender_cfg(r);
  if (c.chance(500)) {
    cfg.sc.w_sei += 20;
    cfg.sc.w_vps += 10;
    cfg.sc.w_sps += 10;
    cfg.sc.w_pps += 10;
  }
  cfg.pc = draw_pack_cfg(r);
  cfg.pc.w_hvcc += 1;
  cfg.net = draw_net(r);
  cfg.net.reorder = 0;
  cfg.steps = 2 + (unsigned)c.below(thorough ? 30 : 8);
  static const bool learn = getenv("SIM_DUMP_LEARN") != nullptr;
  if (learn && !g_learn) g_learn = new Learn;
  DumpSession s(r, cfg);
  // values no encoder would write, in some sessions
  static const unsigned lv[] = {0, 0, 4, 30};
  unsigned hostile = lv[c.below(4)];
  for (unsigned i = 0; i < cfg.steps; i++) {
    g_hostile.c = &c;
    g_hostile.permille = i ? hostile : 0;
    s.step();
    g_hostile.permille = 0;
  }
  s.drain();
  r.count("hostile syntax elements", g_hostile.hits);
  for (unsigned i = 0; i < 3; i++) s.again();
  // the state goes away first
  for (auto& x : s.rx) x.st.reset();
  s.again();
  r.st.sim_time += s.now;
  r.count("bytes printed", s.dumped);
  if (g_learn) {
    std::string f = std::string(getenv("SIM_DUMP_LEARN")) + "." + std::to_string(getpid());
    if (FILE* o = fopen(f.c_str(), "w")) {
      for (auto& b : g_learn->t)
        for (auto& x : b.second)
          fprintf(o, "F\t%s\t%s\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\n", b.first.c_str(), x.first.c_str(), x.second[0], x.second[1],
                  x.second[2], x.second[3]);
      for (auto& u : g_learn->unmapped) fprintf(o, "U\t%s\n", u.c_str());
      fclose(o);
    }
  }
}

}  // namespace sim
