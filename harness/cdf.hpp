// A small, independent encoder/decoder of NetCDF classic files (CDF-1 and CDF-2).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace cdf {
using std::string;
using std::vector;
enum Type { BYTE = 1, CHAR = 2, SHORT = 3, INT = 4, FLOAT = 5, DOUBLE = 6 };
inline int tsize(int t) { static const int s[] = {0, 1, 1, 2, 4, 4, 8}; if (t < 1 || t > 6) throw std::runtime_error("bad type"); return s[t]; }

struct Dim { string name; size_t len; };
struct Var { string name; int type = DOUBLE; vector<int> dims; vector<double> v; string text; vector<std::pair<string, string>> atts; };
struct File {
  int version = 1;
  vector<Dim> dims; vector<Var> vars;
  int dim(const string& n) const { for (size_t i = 0; i < dims.size(); i++) if (dims[i].name == n) return i; return -1; }
  int adddim(const string& n, size_t l) { dims.push_back({n, l}); return dims.size() - 1; }
  Var* var(const string& n) { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
  const Var* var(const string& n) const { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
  size_t count(const Var& v) const { size_t c = 1; for (int d : v.dims) c *= dims[d].len; return c; }
  void add(const string& n, int type, vector<int> d, vector<double> v) { Var x; x.name = n; x.type = type; x.dims = d; x.v = v; vars.push_back(x); }
};

inline string slurp(const string& p) {
  FILE* f = fopen(p.c_str(), "rb"); if (!f) throw std::runtime_error("cannot open " + p);
  string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
inline void spit(const string& p, const string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("cannot write " + p); fwrite(s.data(), 1, s.size(), f); fclose(f); }

inline void put32(string& s, uint32_t v) { for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); }
inline void put64(string& s, uint64_t v) { for (int i = 7; i >= 0; i--) s += (char)(v >> (8 * i)); }
inline void pad4(string& s) { while (s.size() % 4) s += '\0'; }
inline void putname(string& s, const string& n) { put32(s, n.size()); s += n; pad4(s); }
inline void putval(string& s, int t, double v) {
  switch (t) {
  case BYTE: s += (char)(int)v; break;
  case SHORT: { int x = (int)v; s += (char)(x >> 8); s += (char)x; break; }
  case INT: put32(s, (uint32_t)(int32_t)v); break;
  case FLOAT: { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); put32(s, u); break; }
  case DOUBLE: { uint64_t u; memcpy(&u, &v, 8); put64(s, u); break; }
  }
}

inline string encode(const File& f) {
  vector<string> data;
  for (auto& v : f.vars) { string d; if (v.type == CHAR) { d = v.text; d.resize(f.count(v), ' '); } else { size_t n = f.count(v); for (size_t i = 0; i < n; i++) putval(d, v.type, i < v.v.size() ? v.v[i] : 0); } pad4(d); data.push_back(d); }
  size_t header = 0; string s;
  for (int pass = 0; pass < 2; pass++) {
    s = string("CDF") + (char)f.version; put32(s, 0);
    if (f.dims.empty()) { put32(s, 0); put32(s, 0); } else { put32(s, 10); put32(s, f.dims.size()); for (auto& d : f.dims) { putname(s, d.name); put32(s, d.len); } }
    put32(s, 0); put32(s, 0);
    if (f.vars.empty()) { put32(s, 0); put32(s, 0); } else {
      put32(s, 11); put32(s, f.vars.size()); size_t off = header;
      for (size_t i = 0; i < f.vars.size(); i++) {
        auto& v = f.vars[i]; putname(s, v.name); put32(s, v.dims.size()); for (int d : v.dims) put32(s, d);
        if (v.atts.empty()) { put32(s, 0); put32(s, 0); } else { put32(s, 12); put32(s, v.atts.size()); for (auto& a : v.atts) { putname(s, a.first); put32(s, CHAR); put32(s, a.second.size()); s += a.second; pad4(s); } }
        put32(s, v.type); put32(s, data[i].size()); if (f.version == 2) put64(s, off); else put32(s, off); off += data[i].size();
      } }
    header = s.size();
  }
  for (auto& d : data) s += d;
  return s;
}
inline void write(const string& p, const File& f) { spit(p, encode(f)); }

struct Cur { const string& s; size_t p; 
  uint32_t u32() { if (p + 4 > s.size()) throw std::runtime_error("truncated header"); uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (unsigned char)s[p++]; return v; }
  uint64_t u64() { uint64_t a = u32(); return a << 32 | u32(); }
  string name() { uint32_t n = u32(); if (p + n > s.size()) throw std::runtime_error("truncated name"); string r = s.substr(p, n); p += (n + 3) / 4 * 4; return r; } };

inline double getval(const string& s, size_t p, int t) {
  auto b = [&](int i) { return (uint64_t)(unsigned char)s[p + i]; };
  switch (t) {
  case BYTE: return (signed char)s[p];
  case SHORT: return (int16_t)(b(0) << 8 | b(1));
  case INT: return (int32_t)(b(0) << 24 | b(1) << 16 | b(2) << 8 | b(3));
  case FLOAT: { uint32_t u = b(0) << 24 | b(1) << 16 | b(2) << 8 | b(3); float f; memcpy(&f, &u, 4); return f; }
  case DOUBLE: { uint64_t u = 0; for (int i = 0; i < 8; i++) u = u << 8 | b(i); double d; memcpy(&d, &u, 8); return d; }
  }
  return 0;
}

// Decode and check the structure; the record dimension is not used by these files.
inline File decode(const string& s) {
  File f; if (s.size() < 8 || s.compare(0, 3, "CDF")) throw std::runtime_error("not a NetCDF classic file");
  f.version = s[3]; if (f.version != 1 && f.version != 2) throw std::runtime_error("not NetCDF classic format, version byte " + std::to_string((int)s[3]));
  Cur c{s, 4}; uint32_t numrecs = c.u32();
  uint32_t tag = c.u32(), n = c.u32(); if (tag != 0 && tag != 10) throw std::runtime_error("bad dimension list");
  for (uint32_t i = 0; i < n; i++) { string nm = c.name(); f.adddim(nm, c.u32()); if (f.dims.back().len == 0) throw std::runtime_error("record dimension " + nm); }
  (void)numrecs;
  auto atts = [&](vector<std::pair<string, string>>& out) { uint32_t t = c.u32(), k = c.u32(); if (t != 0 && t != 12) throw std::runtime_error("bad attribute list"); for (uint32_t i = 0; i < k; i++) { string nm = c.name(); int ty = c.u32(); uint32_t cnt = c.u32(); size_t len = (size_t)cnt * tsize(ty); if (c.p + len > s.size()) throw std::runtime_error("truncated attribute"); out.push_back({nm, s.substr(c.p, len)}); c.p += (len + 3) / 4 * 4; } };
  vector<std::pair<string, string>> g; atts(g);
  tag = c.u32(); n = c.u32(); if (tag != 0 && tag != 11) throw std::runtime_error("bad variable list");
  vector<size_t> begin;
  for (uint32_t i = 0; i < n; i++) { Var v; v.name = c.name(); uint32_t nd = c.u32(); for (uint32_t k = 0; k < nd; k++) { v.dims.push_back(c.u32()); if (v.dims.back() >= (int)f.dims.size()) throw std::runtime_error("bad dimension id"); } atts(v.atts); v.type = c.u32(); c.u32(); begin.push_back(f.version == 2 ? c.u64() : c.u32()); f.vars.push_back(v); }
  for (uint32_t i = 0; i < n; i++) {
    Var& v = f.vars[i]; size_t k = f.count(v), len = k * tsize(v.type);
    if (begin[i] < c.p || begin[i] + len > s.size()) throw std::runtime_error("data of " + v.name + " outside the file");
    if (v.type == CHAR) v.text = s.substr(begin[i], len); else for (size_t j = 0; j < k; j++) v.v.push_back(getval(s, begin[i] + j * tsize(v.type), v.type));
  }
  return f;
}
inline File read(const string& p) { return decode(slurp(p)); }
} // namespace cdf
