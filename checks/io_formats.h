// Encoders and reference parsers of the graph file formats.
#pragma once

#include "graphs.h"
#include "sim.h"

#include <algorithm>
#include <cstring>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace fio {
using gen::G;
using gen::i64;

// ---------------------------------------------------------------------------------------------
// METIS
struct MetisStyle {
  bool comments = false, extra_spaces = false, final_newline = true, force_format = false, sizes = false;
};
inline MetisStyle random_style() {
  MetisStyle s;
  if (sim::coin(0.5)) {
    s.comments = sim::coin(0.4);
    s.extra_spaces = sim::coin(0.4);
    s.final_newline = !sim::coin(0.3);
    s.force_format = sim::coin(0.3);
    s.sizes = sim::coin(0.15);
  }
  return s;
}
inline std::string encode_metis(const G &g, const MetisStyle &st = {}) {
  sim::NoPreempt np;
  std::string s;
  auto sp = [&] { return st.extra_spaces && sim::coin(0.3) ? std::string("   ") : std::string(" "); };
  auto comment = [&] {
    if (st.comments && sim::coin(0.3)) s += sim::coin() ? "% a comment 1 2 3\n" : "%\n";
  };
  comment();
  s += std::to_string(g.n) + sp() + std::to_string(g.m() / 2);
  if (g.has_vw || g.has_ew || st.force_format || st.sizes) {
    s += sp();
    if (st.sizes) s += '1';
    if (g.has_vw || st.sizes || st.force_format) s += g.has_vw ? '1' : '0';
    s += g.has_ew ? '1' : '0';
  }
  if (st.extra_spaces && sim::coin(0.3)) s += ' ';
  s += '\n';
  for (std::size_t u = 0; u < g.n; ++u) {
    comment();
    if (st.extra_spaces && sim::coin(0.3)) s += "  ";
    bool first = true;
    auto tok = [&](i64 x) {
      if (!first) s += sp();
      first = false;
      s += std::to_string(x);
    };
    if (st.sizes) tok(static_cast<i64>(sim::range(1, 99)));
    if (g.has_vw) tok(g.vw[u]);
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
      tok(static_cast<i64>(g.adj[e] + 1));
      if (g.has_ew) tok(g.ew[e]);
    }
    if (st.extra_spaces && sim::coin(0.3)) s += ' ';
    if (u + 1 < g.n || st.final_newline) s += '\n';
  }
  return s;
}

enum class Verdict { VALID, MALFORMED, UNSPECIFIED };

// Reference parser. UNSPECIFIED: content whose meaning the format does not settle (self loops, zero
// weights, missing lines of trailing nodes, surplus lines, odd format fields, overlong numbers).
inline Verdict parse_metis(const std::string &s, G &g) {
  sim::NoPreempt np;
  std::vector<std::string> lines;
  {
    std::string cur;
    bool open = false;
    for (char c : s) {
      open = true;
      if (c == '\n') {
        lines.push_back(cur);
        cur.clear();
        open = false;
      } else {
        cur += c;
      }
    }
    if (open) lines.push_back(cur);
  }
  bool odd = false;
  auto is_comment = [](const std::string &l) {
    const auto p = l.find_first_not_of(' ');
    return p != std::string::npos && l[p] == '%';
  };
  auto tokens = [&](const std::string &l, std::vector<i64> &out) {
    out.clear();
    std::size_t i = 0;
    while (i < l.size()) {
      if (l[i] == ' ') {
        ++i;
        continue;
      }
      if (l[i] < '0' || l[i] > '9') return false;
      std::size_t j = i;
      i64 x = 0;
      while (j < l.size() && l[j] >= '0' && l[j] <= '9') {
        x = x * 10 + (l[j] - '0');
        ++j;
        if (j - i > 9) odd = true, x %= 1000000000;
      }
      if (j - i > 1 && l[i] == '0') odd = true;
      out.push_back(x);
      i = j;
    }
    return true;
  };
  std::size_t at = 0;
  while (at < lines.size() && is_comment(lines[at])) ++at;
  if (at == lines.size()) return Verdict::MALFORMED;
  std::vector<i64> t;
  // a format field such as "011" is fine
  {
    const bool before = odd;
    if (!tokens(lines[at++], t)) return Verdict::MALFORMED;
    odd = before;
  }
  if (at == lines.size() && s.back() != '\n') odd = true; // unterminated header
  if (t.size() < 2) return Verdict::MALFORMED;
  if (t.size() > 3) return Verdict::UNSPECIFIED;
  const i64 n = t[0], m = t[1], f = t.size() == 3 ? t[2] : 0;
  static const std::set<i64> formats = {0, 1, 10, 11, 100, 101, 110, 111};
  if (!formats.count(f) || n > 1000000) return Verdict::UNSPECIFIED;
  g = G();
  g.n = static_cast<std::size_t>(n);
  g.has_vw = (f / 10) % 10;
  g.has_ew = f % 10;
  const bool sizes = f / 100;
  bool missing = false;
  for (i64 u = 0; u < n; ++u) {
    while (at < lines.size() && is_comment(lines[at])) ++at;
    if (at >= lines.size()) {
      missing = true;
      if (g.has_vw || sizes) return Verdict::MALFORMED;
      t.clear();
    } else if (!tokens(lines[at++], t)) {
      return Verdict::MALFORMED;
    }
    std::size_t i = 0;
    if (sizes) {
      if (t.empty()) return Verdict::MALFORMED;
      ++i;
    }
    i64 w = 1;
    if (g.has_vw) {
      if (i >= t.size()) return Verdict::MALFORMED;
      w = t[i++];
      if (w == 0) odd = true;
    }
    g.vw.push_back(w);
    while (i < t.size()) {
      const i64 v = t[i++];
      if (v < 1 || v > n) return Verdict::MALFORMED;
      if (v - 1 == u) odd = true;
      i64 ew = 1;
      if (g.has_ew) {
        if (i >= t.size()) return Verdict::MALFORMED;
        ew = t[i++];
        if (ew == 0) odd = true;
      }
      g.adj.push_back(static_cast<std::size_t>(v - 1));
      g.ew.push_back(ew);
    }
    g.xadj.push_back(g.adj.size());
  }
  if (static_cast<i64>(g.adj.size()) != 2 * m) return Verdict::MALFORMED;
  while (at < lines.size()) {
    if (!is_comment(lines[at])) odd = true;
    ++at;
  }
  return odd || missing ? Verdict::UNSPECIFIED : Verdict::VALID;
}

// ---------------------------------------------------------------------------------------------
// ParHIP (32 bit everywhere unless asked otherwise)
struct Widths {
  int node = 4, edge = 4, vw = 4, ew = 4;
};
inline std::string encode_parhip(const G &g, const Widths &wd = {}) {
  sim::NoPreempt np;
  std::string s;
  auto put = [&](std::uint64_t x, int bytes) { s.append(reinterpret_cast<const char *>(&x), bytes); };
  const std::uint64_t version = (g.has_ew ? 0 : 1) | (g.has_vw ? 0 : 2) | (wd.edge == 8 ? 0 : 4) | (wd.node == 8 ? 0 : 8) |
                                (wd.vw == 8 ? 0 : 16) | (wd.ew == 8 ? 0 : 32);
  put(version, 8);
  put(g.n, 8);
  put(g.m(), 8);
  const std::uint64_t base = 24 + (g.n + 1) * wd.edge;
  for (std::size_t u = 0; u <= g.n; ++u) put(base + g.xadj[u] * wd.node, wd.edge);
  for (auto v : g.adj) put(v, wd.node);
  if (g.has_vw)
    for (auto w : g.vw) put(static_cast<std::uint64_t>(w), wd.vw);
  if (g.has_ew)
    for (auto w : g.ew) put(static_cast<std::uint64_t>(w), wd.ew);
  return s;
}

// Reference decoder; false: not a well-formed file.
inline bool decode_parhip(const std::string &s, G &g) {
  sim::NoPreempt np;
  std::size_t at = 0;
  bool ok = true;
  auto get = [&](int bytes) {
    std::uint64_t x = 0;
    if (at + bytes > s.size()) {
      ok = false;
      return x;
    }
    std::memcpy(&x, s.data() + at, bytes);
    at += bytes;
    return x;
  };
  const std::uint64_t version = get(8);
  g = G();
  g.n = get(8);
  const std::uint64_t m = get(8);
  if (!ok || g.n > s.size() || m > s.size()) return false;
  g.has_ew = !(version & 1);
  g.has_vw = !(version & 2);
  const int we = version & 4 ? 4 : 8, wn = version & 8 ? 4 : 8, wv = version & 16 ? 4 : 8, ww = version & 32 ? 4 : 8;
  const std::uint64_t base = 24 + (g.n + 1) * we;
  g.xadj.clear();
  for (std::size_t u = 0; u <= g.n && ok; ++u) {
    const std::uint64_t x = get(we);
    if (x < base || (x - base) % wn != 0 || (x - base) / wn > m) return false;
    g.xadj.push_back((x - base) / wn);
  }
  for (std::uint64_t e = 0; e < m && ok; ++e) {
    g.adj.push_back(get(wn));
    if (g.adj.back() >= g.n) return false;
  }
  for (std::size_t u = 0; u < g.n && ok; ++u) g.vw.push_back(g.has_vw ? static_cast<i64>(get(wv)) : 1);
  for (std::uint64_t e = 0; e < m && ok; ++e) g.ew.push_back(g.has_ew ? static_cast<i64>(get(ww)) : 1);
  return ok && at == s.size() && g.xadj.front() == 0 && g.xadj.back() == m;
}

inline void check_content(const G &h, const G &g, const char *what) {
  sim::NoPreempt np;
  SIM_CHECK(h.n == g.n && h.vw == g.vw, "wrong-content", sim::fmt("the %s file has other nodes", what));
  for (std::size_t u = 0; u < g.n; ++u) {
    auto row = [&](const G &x) {
      std::vector<std::pair<std::size_t, i64>> v;
      for (std::size_t e = x.xadj[u]; e < x.xadj[u + 1]; ++e) v.push_back({x.adj[e], x.ew[e]});
      std::sort(v.begin(), v.end());
      return v;
    };
    SIM_CHECK(row(h) == row(g), "wrong-content", sim::fmt("the %s file has other edges at node %zu", what, u));
  }
}

// One number per line.
inline std::optional<std::vector<std::uint64_t>> numbers(const std::string &s) {
  std::vector<std::uint64_t> r;
  std::size_t i = 0;
  while (i < s.size()) {
    std::uint64_t x = 0;
    std::size_t j = i;
    while (j < s.size() && s[j] >= '0' && s[j] <= '9') x = x * 10 + (s[j++] - '0');
    if (j == i || j == s.size() || s[j] != '\n') return std::nullopt; // every number is on its own line
    r.push_back(x);
    i = j + 1;
  }
  return r;
}
} // namespace fio
