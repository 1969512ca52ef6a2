// Generic value trees: the sender model describes what it coded as a tree, the
// generated visitor turns any library result into a tree, and both are compared.
#pragma once
#include <array>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <type_traits>
#include <vector>

#include "core.h"

namespace sim {

struct Node {
  enum Kind : uint8_t { kNull, kInt, kInts, kList, kObj, kStr };
  Kind kind = kNull;
  const char* name = "";
  int64_t v = 0;
  std::vector<int64_t> iv;
  std::vector<Node> kids;
  std::string s;

  Node() = default;
  explicit Node(Kind k) : kind(k) {}
  static Node Int(int64_t v) {
    Node n(kInt);
    n.v = v;
    return n;
  }
  static Node Ints(std::vector<int64_t> v = {}) {
    Node n(kInts);
    n.iv = std::move(v);
    return n;
  }
  static Node List() { return Node(kList); }
  static Node Obj() { return Node(kObj); }
  static Node Str(std::string s) {
    Node n(kStr);
    n.s = std::move(s);
    return n;
  }
  void set(const char* nm, Node n) {
    n.name = nm;
    kids.push_back(std::move(n));
  }
  void i(const char* nm, int64_t x) { set(nm, Int(x)); }
  Node& ref(const char* nm, Kind k) {
    for (auto& c : kids)
      if (!strcmp(c.name, nm)) return c;
    Node n(k);
    n.name = nm;
    kids.push_back(std::move(n));
    return kids.back();
  }
  void push(const char* nm, int64_t x) { ref(nm, kInts).iv.push_back(x); }
  const Node* get(const char* nm) const {
    for (auto& c : kids)
      if (!strcmp(c.name, nm)) return &c;
    return nullptr;
  }
  int64_t geti(const char* nm, int64_t dflt = -1) const {
    const Node* n = get(nm);
    return n && n->kind == kInt ? n->v : dflt;
  }
  bool null() const { return kind == kNull; }
  uint64_t hash() const {
    uint64_t h = mix(0x51ed, (uint64_t)kind);
    switch (kind) {
      case kInt: h = mix(h, (uint64_t)v); break;
      case kInts:
        for (auto x : iv) h = mix(h, (uint64_t)x);
        break;
      case kStr: h = mix(h, hash_bytes(s.data(), s.size())); break;
      case kObj:
      case kList:
        for (auto& c : kids) {
          if (kind == kObj) h = mix(h, hash_bytes(c.name, strlen(c.name)));
          h = mix(h, c.hash());
        }
        break;
      default: break;
    }
    return h;
  }
  std::string brief() const {
    char b[64];
    switch (kind) {
      case kNull: return "null";
      case kInt: snprintf(b, sizeof b, "%" PRId64, v); return b;
      case kInts: {
        std::string r = "[";
        for (size_t k = 0; k < iv.size() && k < 12; k++) {
          snprintf(b, sizeof b, "%s%" PRId64, k ? "," : "", iv[k]);
          r += b;
        }
        if (iv.size() > 12) r += ",...";
        return r + "]";
      }
      case kStr: return "\"" + s.substr(0, 80) + "\"";
      case kList: snprintf(b, sizeof b, "list(%zu)", kids.size()); return b;
      case kObj: snprintf(b, sizeof b, "{%zu fields}", kids.size()); return b;
    }
    return "?";
  }
};

// Every field of the expected tree must be present in the actual one with the
// same value; fields the sender did not code are not looked at.
inline bool match(const Node& e, const Node& a, std::string path, std::string* why) {
  if (e.kind == Node::kInts && a.kind == Node::kList && e.iv.empty() && a.kids.empty())
    return true;
  if (e.kind != a.kind) {
    *why = path + ": coded " + e.brief() + ", reported " + a.brief();
    return false;
  }
  switch (e.kind) {
    case Node::kNull: return true;
    case Node::kInt:
      if (e.v == a.v) return true;
      break;
    case Node::kInts:
      if (e.iv == a.iv) return true;
      break;
    case Node::kStr:
      if (e.s == a.s) return true;
      break;
    case Node::kList:
      if (e.kids.size() != a.kids.size()) break;
      for (size_t k = 0; k < e.kids.size(); k++)
        if (!match(e.kids[k], a.kids[k], path + "[" + std::to_string(k) + "]", why))
          return false;
      return true;
    case Node::kObj: {
      size_t cur = 0;
      for (auto& c : e.kids) {
        const Node* f = nullptr;
        for (size_t k = 0; k < a.kids.size(); k++) {
          size_t x = (cur + k) % a.kids.size();
          if (!strcmp(a.kids[x].name, c.name)) {
            f = &a.kids[x];
            cur = x + 1;
            break;
          }
        }
        if (!f) {
          *why = path + "." + c.name + ": coded " + c.brief() + ", not reported at all";
          return false;
        }
        if (!match(c, *f, path + "." + c.name, why)) return false;
      }
      return true;
    }
  }
  *why = path + ": coded " + e.brief() + ", reported " + a.brief();
  return false;
}

// Full structural difference of two reports (both from the library).
inline bool same(const Node& a, const Node& b, std::string path, std::string* why) {
  if (a.kind == b.kind) {
    switch (a.kind) {
      case Node::kNull: return true;
      case Node::kInt:
        if (a.v == b.v) return true;
        break;
      case Node::kInts:
        if (a.iv == b.iv) return true;
        break;
      case Node::kStr:
        if (a.s == b.s) return true;
        break;
      default:
        if (a.kids.size() == b.kids.size()) {
          for (size_t k = 0; k < a.kids.size(); k++) {
            std::string p = a.kind == Node::kObj
                                ? path + "." + a.kids[k].name
                                : path + "[" + std::to_string(k) + "]";
            if (a.kind == Node::kObj && strcmp(a.kids[k].name, b.kids[k].name)) {
              *why = p + ": different fields";
              return false;
            }
            if (!same(a.kids[k], b.kids[k], p, why)) return false;
          }
          return true;
        }
    }
  }
  *why = path + ": " + a.brief() + " vs " + b.brief();
  return false;
}

inline void print(const Node& n, std::string indent, std::string* out, bool is_field) {
  if (n.kind == Node::kObj || n.kind == Node::kList) {
    *out += indent + (is_field ? n.name : "-") + ":\n";
    for (auto& c : n.kids) print(c, indent + "  ", out, n.kind == Node::kObj);
  } else {
    *out += indent + (is_field ? n.name : "-") + ": " + n.brief() + "\n";
  }
}

// ---- conversion of library objects ----
template <typename T>
struct Visit;  // specialised by the generated code: Fields(const T&, F)
template <typename T, typename = void>
struct HasVisit : std::false_type {};
template <typename T>
struct HasVisit<T, std::void_t<decltype(&Visit<T>::kIsVisitable)>> : std::true_type {};

template <typename T>
Node to_node(const T& x);

template <typename T>
struct Conv {
  static Node go(const T& x) {
    if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) {
      return Node::Int((int64_t)x);
    } else if constexpr (HasVisit<T>::value) {
      Node o = Node::Obj();
      Visit<T>::fields(x, o);
      return o;
    } else if constexpr (std::is_floating_point_v<T>) {
      int64_t v = 0;
      double d = (double)x;
      memcpy(&v, &d, sizeof v);
      return Node::Int(v);
    } else {
      return Node();  // not data (a pointer, a function, ...)
    }
  }
};
template <typename T>
struct IsScalarLike
    : std::bool_constant<std::is_integral_v<T> || std::is_enum_v<T>> {};
template <typename It>
Node seq(It b, It e) {
  using T = typename std::iterator_traits<It>::value_type;
  if constexpr (IsScalarLike<T>::value) {
    Node n = Node::Ints();
    for (; b != e; ++b) n.iv.push_back((int64_t)*b);
    return n;
  } else {
    Node n = Node::List();
    for (; b != e; ++b) n.kids.push_back(to_node(*b));
    return n;
  }
}
template <typename T>
struct Conv<std::vector<T>> {
  static Node go(const std::vector<T>& x) { return seq(x.begin(), x.end()); }
};
template <typename T, size_t N>
struct Conv<std::array<T, N>> {
  static Node go(const std::array<T, N>& x) { return seq(x.begin(), x.end()); }
};
template <typename T>
struct Conv<std::deque<T>> {
  static Node go(const std::deque<T>& x) { return seq(x.begin(), x.end()); }
};
template <typename T>
struct Conv<std::list<T>> {
  static Node go(const std::list<T>& x) { return seq(x.begin(), x.end()); }
};
template <typename T>
struct Conv<std::set<T>> {
  static Node go(const std::set<T>& x) { return seq(x.begin(), x.end()); }
};
template <>
struct Conv<std::string> {
  static Node go(const std::string& x) { return Node::Str(x); }
};
template <typename T>
struct Conv<std::optional<T>> {
  static Node go(const std::optional<T>& x) { return x ? to_node(*x) : Node(); }
};
template <typename A, typename B>
struct Conv<std::pair<A, B>> {
  static Node go(const std::pair<A, B>& x) {
    Node o = Node::Obj();
    o.set("first", to_node(x.first));
    o.set("second", to_node(x.second));
    return o;
  }
};
template <typename K, typename T>
struct Conv<std::unordered_map<K, T>> {
  static Node go(const std::unordered_map<K, T>& x) {
    std::map<K, const T*> m;
    for (auto& p : x) m[p.first] = &p.second;
    Node n = Node::List();
    for (auto& p : m) {
      Node o = Node::Obj();
      o.i("key", (int64_t)p.first);
      o.set("value", to_node(*p.second));
      n.kids.push_back(std::move(o));
    }
    return n;
  }
};
template <typename T, size_t N>
struct Conv<T[N]> {
  static Node go(const T (&x)[N]) { return seq(&x[0], &x[0] + N); }
};
template <typename T>
struct Conv<std::unique_ptr<T>> {
  static Node go(const std::unique_ptr<T>& x) { return x ? to_node(*x) : Node(); }
};
template <typename T>
struct Conv<std::shared_ptr<T>> {
  static Node go(const std::shared_ptr<T>& x) { return x ? to_node(*x) : Node(); }
};
template <typename K, typename T>
struct Conv<std::map<K, T>> {
  static Node go(const std::map<K, T>& x) {
    Node n = Node::List();
    for (auto& p : x) {
      Node o = Node::Obj();
      o.i("key", (int64_t)p.first);
      o.set("value", to_node(p.second));
      n.kids.push_back(std::move(o));
    }
    return n;
  }
};
template <typename T>
Node to_node(const T& x) {
  return Conv<T>::go(x);
}

}  // namespace sim
