// Executable specification of the transformation (independent of the code under
// test), generators of bounded input spaces, and comparison with the implementation.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <stdexcept>
#include "booz_xform.hpp"

namespace vf {
using std::string;
using std::vector;
typedef long long i64;
const double PI = 3.14159265358979323846264338327950288;

// ------------------------------------------------------------------ harness context

struct Fail { i64 c; string what; };

inline string jesc(const string& s) {
  string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Ctx {
  int shard = 0, nshards = 1; i64 only = -1; string out; bool thorough = false; string part;
  i64 idx = -1, run = 0, nontrivial = 0, transitions = 0;
  std::unordered_set<uint64_t> distinct;
  vector<Fail> fails; vector<string> samples; vector<std::pair<string, string>> known;
  vector<std::pair<string, i64>> counters;
  FILE* cur = nullptr;
  string desc;

  void parse(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      string a = argv[i];
      if (a == "--shard") { shard = atoi(argv[i + 1]); nshards = atoi(argv[i + 2]); i += 2; }
      else if (a == "--only") only = atoll(argv[++i]);
      else if (a == "--out") out = argv[++i];
      else if (a == "--thorough") thorough = true;
      else if (part.empty()) part = a;
    }
  }
  // Start the next case; false if it belongs to another shard.
  bool next() {
    idx++;
    if (only >= 0) return idx == only;
    if (fails.size() >= 8) return false;
    return idx % nshards == shard;
  }
  // Same, but with the cases of one "block" kept in one shard.
  void begin(const string& d) {
    desc = d; run++;
    if (!out.empty()) {
      if (!cur) cur = fopen((out + ".cur").c_str(), "w");
      if (cur) { rewind(cur); fprintf(cur, "{\"case\": %lld, \"desc\": \"%s\"}", idx, jesc(d).c_str()); fputc('\n', cur); fflush(cur); if (ftruncate(fileno(cur), ftell(cur))) {} }
    }
    if (samples.size() < 3 && (run == 1 || run == 57 || run == 1009)) samples.push_back(d);
  }
  void fail(const string& w) { if (fails.size() < 16 && (fails.empty() || fails.back().c != idx)) fails.push_back({idx, desc + ": " + w}); if (only >= 0) printf("FAIL case %lld: %s: %s\n", idx, desc.c_str(), w.c_str()); }
  void state(uint64_t h) { distinct.insert(h); }
  void count(const string& n, i64 v = 1) { for (auto& c : counters) if (c.first == n) { c.second += v; return; } counters.push_back({n, v}); }
  int finish() {
    if (cur) fclose(cur);
    if (out.empty()) { printf("run=%lld distinct=%zu fails=%zu\n", run, distinct.size(), fails.size()); for (auto& f : fails) printf("  case %lld: %s\n", f.c, f.what.c_str()); return fails.size() ? 3 : 0; }
    FILE* f = fopen((out + ".tmp").c_str(), "w");
    fprintf(f, "{\"evaluations\": %lld, \"distinct\": %zu, \"nontrivial\": %lld, \"transitions\": %lld, \"total_cases\": %lld,\n", run, distinct.size(), nontrivial, transitions, idx + 1);
    fprintf(f, "\"samples\": [");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    fprintf(f, "],\n\"counters\": {");
    for (size_t i = 0; i < counters.size(); i++) fprintf(f, "%s\"%s\": %lld", i ? ", " : "", counters[i].first.c_str(), counters[i].second);
    fprintf(f, "},\n\"known\": [");
    for (size_t i = 0; i < known.size(); i++) fprintf(f, "%s{\"id\": \"%s\", \"what\": \"%s\"}", i ? ", " : "", jesc(known[i].first).c_str(), jesc(known[i].second).c_str());
    fprintf(f, "],\n\"failures\": [");
    for (size_t i = 0; i < fails.size(); i++) fprintf(f, "%s{\"case\": %lld, \"what\": \"%s\"}", i ? ", " : "", fails[i].c, jesc(fails[i].what).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    rename((out + ".tmp").c_str(), out.c_str());
    return 0;
  }
};

inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
inline uint64_t hash_str(const string& s) { return mix(hash_bytes(s.data(), s.size())); }
// deterministic value in [-1,1] for a coordinate tuple
inline double rnd(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
  uint64_t h = mix(a * 1000003 + mix(b * 7919 + mix(c * 104729 + mix(d + 12345))));
  return ((h >> 11) * (1.0 / 9007199254740992.0)) * 2 - 1;
}

// ------------------------------------------------------------------ inputs

// order of the input arrays
enum In { RMNC, ZMNS, LMNS, BMNC, BSUBU, BSUBV, RMNS, ZMNC, LMNC, BMNS, BSUBUS, BSUBVS, NIN };
static const char* in_name[NIN] = {"rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc", "rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"};
inline bool in_nyq(int a) { return a == BMNC || a == BSUBU || a == BSUBV || a == BMNS || a == BSUBUS || a == BSUBVS; }
inline bool in_asym(int a) { return a >= RMNS; }

struct Eq {
  bool asym = false;
  int nfp = 1, mpol = 1, ntor = 0, mpolq = 0, ntorq = 0, ns = 1, mboz = 1, nboz = 0, verbose = 0;
  vector<int> xm, xn, xmq, xnq, surfs;
  vector<double> s, iota;
  vector<double> a[NIN];   // [mode + nmodes * surface]
  double aspect = 0, flux = 0;
  int mn() const { return xm.size(); }
  int mnq() const { return xmq.size(); }
  int rows(int k) const { return in_nyq(k) ? mnq() : mn(); }
  double& at(int k, int j, int s) { return a[k][j + (size_t)rows(k) * s]; }
  double at(int k, int j, int s) const { return a[k][j + (size_t)rows(k) * s]; }
  void alloc() {
    for (int k = 0; k < NIN; k++) a[k].assign((in_asym(k) && !asym) ? 0 : (size_t)rows(k) * ns, 0.0);
    iota.assign(ns, 0.5); s.resize(ns);
    for (int j = 0; j < ns; j++) s[j] = (j + 0.5) / ns;
    surfs.resize(ns);
    for (int j = 0; j < ns; j++) surfs[j] = j;
  }
  void vmec_modes() {
    xm.clear(); xn.clear(); xmq.clear(); xnq.clear();
    for (int m = 0; m < mpol; m++) for (int n = (m ? -ntor : 0); n <= ntor; n++) { xm.push_back(m); xn.push_back(n * nfp); }
    for (int m = 0; m <= mpolq; m++) for (int n = (m ? -ntorq : 0); n <= ntorq; n++) { xmq.push_back(m); xnq.push_back(n * nfp); }
  }
  string str() const {
    std::ostringstream o;
    o << "asym=" << asym << " nfp=" << nfp << " mpol=" << mpol << " ntor=" << ntor << " mpolq=" << mpolq << " ntorq=" << ntorq << " ns=" << ns
      << " mboz=" << mboz << " nboz=" << nboz << " nsurf=" << surfs.size();
    return o.str();
  }
  uint64_t hash() const {
    uint64_t h = 7;
    int v[] = {asym, nfp, mpol, ntor, mpolq, ntorq, ns, mboz, nboz};
    h = hash_bytes(v, sizeof v, h);
    auto hv = [&](const void* p, size_t n) { h = hash_bytes(p, n, h); };
    hv(xm.data(), 4 * xm.size()); hv(xn.data(), 4 * xn.size()); hv(xmq.data(), 4 * xmq.size()); hv(xnq.data(), 4 * xnq.size()); hv(surfs.data(), 4 * surfs.size());
    hv(iota.data(), 8 * iota.size());
    for (int k = 0; k < NIN; k++) hv(a[k].data(), 8 * a[k].size());
    return mix(h);
  }
};

// A generic smooth equilibrium: all coefficients nonzero, deterministic in `seed`.
inline void fill_generic(Eq& e, uint64_t seed, double G = 2.0, double I = 0.3, double iota0 = 0.4, double amp = 0.05) {
  e.alloc();
  for (int s = 0; s < e.ns; s++) {
    e.iota[s] = iota0 * (1 + 0.2 * s);
    for (int k = 0; k < NIN; k++) {
      if (e.a[k].empty()) continue;
      for (int j = 0; j < e.rows(k); j++) {
        int m = in_nyq(k) ? e.xmq[j] : e.xm[j], n = (in_nyq(k) ? e.xnq[j] : e.xn[j]) / e.nfp;
        double d = 1.0 / (1 + m * m + n * n);
        double v = rnd(seed, k, j, s) * d;
        switch (k) {
        case RMNC: v = (m == 0 && n == 0) ? 3 + v : v; break;
        case LMNS: case LMNC: v *= amp; break;
        case BMNC: v = (m == 0 && n == 0) ? 2 + 0.3 * v : 0.2 * v; break;
        case BMNS: v *= 0.2; break;
        case BSUBU: v = (m == 0 && n == 0) ? I * (1 + 0.1 * s) : v * amp * G; break;
        case BSUBV: v = (m == 0 && n == 0) ? G * (1 + 0.05 * s) : v * amp * G * (n ? std::abs(n * e.nfp) : 1); break;
        case BSUBUS: v *= amp * G; break;
        case BSUBVS: v *= amp * G * (n ? std::abs(n * e.nfp) : 1); break;
        }
        e.at(k, j, s) = v;
      }
    }
  }
}

// ------------------------------------------------------------------ outputs

enum Out { BMNC_B, RMNC_B, ZMNS_B, NUMNS_B, GMNC_B, BMNS_B, RMNS_B, ZMNC_B, NUMNC_B, GMNS_B, NOUT };
static const char* out_name[NOUT] = {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b", "bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"};

struct Res {
  int ns_b = 0, mnboz = 0;
  vector<int> xm, xn;
  vector<double> a[NOUT]; int rows[NOUT] = {0}, cols[NOUT] = {0};
  vector<double> G, I, Gall, Iall, s_b;
  vector<double> scale[NOUT];   // per surface: magnitude that rounding errors are relative to (reference only)
  double at(int k, int j, int s) const { return a[k][j + (size_t)rows[k] * s]; }
};

// ------------------------------------------------------------------ reference model

// grid values of one surface, for checks that look inside
struct Surf {
  int nt, nz; vector<double> th, ze, r, z, lam, nu, bmod, jac, thB, zeB; double G, I, iota;
};

inline Surf ref_surface(const Eq& e, int js, int nt, int nz, double th0 = 0, double ze0 = 0) {
  Surf f; f.nt = nt; f.nz = nz;
  int np = nt * nz;
  for (auto* v : {&f.th, &f.ze, &f.r, &f.z, &f.lam, &f.nu, &f.bmod, &f.jac, &f.thB, &f.zeB}) v->assign(np, 0.0);
  vector<double> w(np, 0.0), lt(np, 0.0), lz(np, 0.0), wt(np, 0.0), wz(np, 0.0);
  for (int i = 0; i < nt; i++) for (int j = 0; j < nz; j++) { f.th[i * nz + j] = th0 + 2 * PI * i / nt; f.ze[i * nz + j] = ze0 + 2 * PI * j / (e.nfp * (double)nz); }
  // exact trigonometric tables: cos(m*theta_i) by argument reduction of integers
  auto phase = [&](int m, int n, vector<double>& c, vector<double>& s) {
    c.resize(np); s.resize(np);
    bool shifted = th0 != 0 || ze0 != 0;
    for (int i = 0; i < nt; i++) for (int j = 0; j < nz; j++) {
      double x;
      if (!shifted) {
        i64 a = ((i64)m * i) % nt, b = ((i64)(n / e.nfp) * j) % nz;
        x = 2 * PI * ((double)a / nt - (double)b / nz);
      } else x = m * f.th[i * nz + j] - n * f.ze[i * nz + j];
      c[i * nz + j] = std::cos(x); s[i * nz + j] = std::sin(x);
    }
  };
  vector<double> c, s;
  for (int q = 0; q < e.mn(); q++) {
    int m = e.xm[q], n = e.xn[q];
    phase(m, n, c, s);
    double R = e.at(RMNC, q, js), Z = e.at(ZMNS, q, js), L = e.at(LMNS, q, js);
    double Rs = 0, Zc = 0, Lc = 0;
    if (e.asym) { Rs = e.at(RMNS, q, js); Zc = e.at(ZMNC, q, js); Lc = e.at(LMNC, q, js); }
    for (int p = 0; p < np; p++) {
      f.r[p] += R * c[p] + Rs * s[p]; f.z[p] += Z * s[p] + Zc * c[p]; f.lam[p] += L * s[p] + Lc * c[p];
      lt[p] += m * (L * c[p] - Lc * s[p]); lz[p] += -n * (L * c[p] - Lc * s[p]);
    }
  }
  f.G = f.I = 0;
  for (int q = 0; q < e.mnq(); q++) {
    int m = e.xmq[q], n = e.xnq[q];
    phase(m, n, c, s);
    double B = e.at(BMNC, q, js), Bs = e.asym ? e.at(BMNS, q, js) : 0, ws = 0, wc = 0;
    if (m != 0) { ws = e.at(BSUBU, q, js) / m; if (e.asym) wc = -e.at(BSUBUS, q, js) / m; }
    else if (n != 0) { ws = -e.at(BSUBV, q, js) / n; if (e.asym) wc = e.at(BSUBVS, q, js) / n; }
    else { f.I = e.at(BSUBU, q, js); f.G = e.at(BSUBV, q, js); }
    for (int p = 0; p < np; p++) {
      f.bmod[p] += B * c[p] + Bs * s[p]; w[p] += ws * s[p] + wc * c[p];
      wt[p] += m * (ws * c[p] - wc * s[p]); wz[p] += -n * (ws * c[p] - wc * s[p]);
    }
  }
  f.iota = e.iota[js];
  double d = 1.0 / (f.G + f.iota * f.I);
  for (int p = 0; p < np; p++) {
    double nu = d * (w[p] - f.I * f.lam[p]), nut = d * (wt[p] - f.I * lt[p]), nuz = d * (wz[p] - f.I * lz[p]);
    f.nu[p] = nu; f.thB[p] = f.th[p] + f.lam[p] + f.iota * nu; f.zeB[p] = f.ze[p] + nu;
    // Jacobian d(thB, zeB)/d(th, ze), written out (not in the factored form of the documentation)
    double a11 = 1 + lt[p] + f.iota * nut, a12 = lz[p] + f.iota * nuz, a21 = nut, a22 = 1 + nuz;
    f.jac[p] = a11 * a22 - a12 * a21;
  }
  return f;
}

inline void mode_list(int mboz, int nboz, int nfp, vector<int>& xm, vector<int>& xn) {
  xm.clear(); xn.clear();
  for (int m = 0; m < mboz; m++) for (int n = (m ? -nboz : 0); n <= nboz; n++) { xm.push_back(m); xn.push_back(n * nfp); }
}

inline Res ref_transform(const Eq& e) {
  Res o;
  o.ns_b = e.surfs.size();
  mode_list(e.mboz, e.nboz, e.nfp, o.xm, o.xn);
  o.mnboz = o.xm.size();
  int nt = 2 * (2 * e.mboz + 1), nz = e.nboz ? 2 * (2 * e.nboz + 1) : 1, np = nt * nz;
  for (int k = 0; k < NOUT; k++) {
    bool on = k < BMNS_B || e.asym;
    o.rows[k] = on ? o.mnboz : 0; o.cols[k] = on ? o.ns_b : 0;
    o.a[k].assign(on ? (size_t)o.mnboz * o.ns_b : 0, 0.0);
    o.scale[k].assign(o.ns_b, 0.0);
  }
  for (int j = 0; j < e.ns; j++) {
    double I = 0, G = 0;
    for (int q = 0; q < e.mnq(); q++) if (e.xmq[q] == 0 && e.xnq[q] == 0) { I = e.at(BSUBU, q, j); G = e.at(BSUBV, q, j); break; }
    o.Iall.push_back(I); o.Gall.push_back(G);
  }
  for (int b = 0; b < o.ns_b; b++) {
    int js = e.surfs[b];
    o.s_b.push_back(e.s.size() ? e.s[js] : NAN);
    Surf f = ref_surface(e, js, nt, nz);
    o.G.push_back(f.G); o.I.push_back(f.I);
    double GI = f.G + f.iota * f.I;
    vector<double> gj(np);
    for (int p = 0; p < np; p++) gj[p] = GI / (f.bmod[p] * f.bmod[p]);
    const vector<double>* q[5] = {&f.bmod, &f.r, &f.z, &f.nu, &gj};
    double sc[5] = {0};
    for (int t = 0; t < 5; t++) { for (int p = 0; p < np; p++) sc[t] = std::max(sc[t], std::fabs((*q[t])[p] * f.jac[p])); }
    // Half-range representation of a symmetric case: antisymmetric parts cancel.
    vector<double> c1t(np), s1t(np), c1z(np), s1z(np);
    for (int jm = 0; jm < o.mnboz; jm++) {
      double C[5] = {0}, S[5] = {0};
      int m = o.xm[jm], n = o.xn[jm];
      for (int p = 0; p < np; p++) {
        double x = m * f.thB[p] - n * f.zeB[p], c = std::cos(x) * f.jac[p], s = std::sin(x) * f.jac[p];
        for (int t = 0; t < 5; t++) { C[t] += c * (*q[t])[p]; S[t] += s * (*q[t])[p]; }
      }
      double fac = (m == 0 && n == 0 ? 1.0 : 2.0) / np;
      size_t ix = jm + (size_t)o.mnboz * b;
      o.a[BMNC_B][ix] = fac * C[0]; o.a[RMNC_B][ix] = fac * C[1]; o.a[ZMNS_B][ix] = fac * S[2]; o.a[NUMNS_B][ix] = fac * S[3]; o.a[GMNC_B][ix] = fac * C[4];
      if (e.asym) { o.a[BMNS_B][ix] = fac * S[0]; o.a[RMNS_B][ix] = fac * S[1]; o.a[ZMNC_B][ix] = fac * C[2]; o.a[NUMNC_B][ix] = fac * C[3]; o.a[GMNS_B][ix] = fac * S[4]; }
    }
    for (int t = 0; t < 5; t++) { o.scale[t][b] = sc[t]; o.scale[t + 5][b] = sc[t]; }
  }
  return o;
}

// ------------------------------------------------------------------ implementation

typedef booz_xform::Booz_xform BX;
inline booz_xform::Vector tov(const vector<double>& x) { booz_xform::Vector v(x.size()); for (size_t i = 0; i < x.size(); i++) v[i] = x[i]; return v; }
inline booz_xform::IntVector toi(const vector<int>& x) { booz_xform::IntVector v(x.size()); for (size_t i = 0; i < x.size(); i++) v[i] = x[i]; return v; }
inline booz_xform::Matrix tom(const vector<double>& x, int r, int c) { booz_xform::Matrix m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = x[i + (size_t)r * j]; return m; }

inline booz_xform::Matrix* in_ptr(BX& b, int k) {
  booz_xform::Matrix* p[NIN] = {&b.rmnc, &b.zmns, &b.lmns, &b.bmnc, &b.bsubumnc, &b.bsubvmnc, &b.rmns, &b.zmnc, &b.lmnc, &b.bmns, &b.bsubumns, &b.bsubvmns};
  return p[k];
}
inline booz_xform::Matrix* out_ptr(BX& b, int k) {
  booz_xform::Matrix* p[NOUT] = {&b.bmnc_b, &b.rmnc_b, &b.zmns_b, &b.numns_b, &b.gmnc_b, &b.bmns_b, &b.rmns_b, &b.zmnc_b, &b.numnc_b, &b.gmns_b};
  return p[k];
}

inline void set_inputs(BX& b, const Eq& e) {
  b.verbose = e.verbose; b.asym = e.asym; b.nfp = e.nfp; b.mpol = e.mpol; b.ntor = e.ntor; b.mnmax = e.mn();
  b.mpol_nyq = e.mpolq; b.ntor_nyq = e.ntorq; b.mnmax_nyq = e.mnq(); b.ns_in = e.ns;
  b.xm = toi(e.xm); b.xn = toi(e.xn); b.xm_nyq = toi(e.xmq); b.xn_nyq = toi(e.xnq);
  b.s_in = tov(e.s); b.iota = tov(e.iota);
  for (int k = 0; k < NIN; k++) if (!e.a[k].empty()) *in_ptr(b, k) = tom(e.a[k], e.rows(k), e.ns);
  b.mboz = e.mboz; b.nboz = e.nboz; b.compute_surfs = toi(e.surfs);
  b.aspect = e.aspect; b.toroidal_flux = e.flux;
}

inline vector<double> fromv(const booz_xform::Vector& v) { return vector<double>(v.data(), v.data() + v.size()); }
inline vector<int> fromi(const booz_xform::IntVector& v) { return vector<int>(v.data(), v.data() + v.size()); }

inline Res get_outputs(BX& b) {
  Res o;
  o.ns_b = b.ns_b; o.mnboz = b.mnboz; o.xm = fromi(b.xm_b); o.xn = fromi(b.xn_b);
  for (int k = 0; k < NOUT; k++) { auto* m = out_ptr(b, k); o.rows[k] = m->rows(); o.cols[k] = m->cols(); o.a[k].assign(m->data(), m->data() + m->size()); }
  o.G = fromv(b.Boozer_G); o.I = fromv(b.Boozer_I); o.Gall = fromv(b.Boozer_G_all); o.Iall = fromv(b.Boozer_I_all); o.s_b = fromv(b.s_b);
  return o;
}

inline Res impl(const Eq& e) { BX b; set_inputs(b, e); b.run(); return get_outputs(b); }

inline Eq get_inputs(BX& b) {
  Eq e;
  e.verbose = 0; e.asym = b.asym; e.nfp = b.nfp; e.mpol = b.mpol; e.ntor = b.ntor; e.mpolq = b.mpol_nyq; e.ntorq = b.ntor_nyq; e.ns = b.ns_in;
  e.xm = fromi(b.xm); e.xn = fromi(b.xn); e.xmq = fromi(b.xm_nyq); e.xnq = fromi(b.xn_nyq); e.s = fromv(b.s_in); e.iota = fromv(b.iota);
  for (int k = 0; k < NIN; k++) if (!in_asym(k) || e.asym) { auto* m = in_ptr(b, k); e.a[k].assign(m->data(), m->data() + m->size()); }
  e.mboz = b.mboz; e.nboz = b.nboz; e.surfs = fromi(b.compute_surfs);
  return e;
}

// ------------------------------------------------------------------ comparison

inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// Everything but the spectra: exact.
inline string cmp_meta(const Res& x, const Res& r) {
  std::ostringstream o;
  if (x.ns_b != r.ns_b) { o << "ns_b=" << x.ns_b << " expected " << r.ns_b; return o.str(); }
  if (x.mnboz != r.mnboz) { o << "mnboz=" << x.mnboz << " expected " << r.mnboz; return o.str(); }
  if (x.xm != r.xm) return "xm_b differs";
  if (x.xn != r.xn) return "xn_b differs";
  for (int k = 0; k < NOUT; k++) if (x.rows[k] != r.rows[k] || x.cols[k] != r.cols[k]) { o << out_name[k] << " is " << x.rows[k] << " x " << x.cols[k] << ", expected " << r.rows[k] << " x " << r.cols[k]; return o.str(); }
  const vector<double>* a[5] = {&x.G, &x.I, &x.Gall, &x.Iall, &x.s_b};
  const vector<double>* b[5] = {&r.G, &r.I, &r.Gall, &r.Iall, &r.s_b};
  const char* nm[5] = {"Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "s_b"};
  for (int t = 0; t < 5; t++) {
    if (a[t]->size() != b[t]->size()) { o << nm[t] << " has size " << a[t]->size() << " expected " << b[t]->size(); return o.str(); }
    for (size_t i = 0; i < a[t]->size(); i++) if (!same((*a[t])[i], (*b[t])[i])) { o.precision(17); o << nm[t] << "[" << i << "]=" << (*a[t])[i] << " expected " << (*b[t])[i]; return o.str(); }
  }
  return "";
}

// Compare spectra. tol is relative to the reference's rounding scale.
inline string cmp_spectra(const Res& x, const Res& r, double tol, double* worst = nullptr) {
  for (int k = 0; k < NOUT; k++) for (int b = 0; b < r.cols[k]; b++) {
    double sc = r.scale[k].size() ? r.scale[k][b] : 0;
    for (int j = 0; j < r.rows[k]; j++) {
      double a = x.at(k, j, b), q = r.at(k, j, b), d = std::fabs(a - q), lim = tol * sc + 1e-300;
      if (worst && sc > 0 && std::isfinite(d)) *worst = std::max(*worst, d / sc);
      if (!(d <= lim) && !(same(a, q))) {
        if (!std::isfinite(q)) continue;      // nothing specified
        std::ostringstream o; o.precision(17);
        o << out_name[k] << "(m=" << r.xm[j] << ", n=" << r.xn[j] << "; selected surface " << b << ")=" << a << " expected " << q << " |diff|=" << d << " allowed " << lim;
        return o.str();
      }
    }
  }
  return "";
}

inline string cmp_all(const Res& x, const Res& r, double tol, double* worst = nullptr) { string s = cmp_meta(x, r); return s.empty() ? cmp_spectra(x, r, tol, worst) : s; }

// Bitwise equality of everything.
inline string cmp_exact(const Res& x, const Res& r) {
  string s = cmp_meta(x, r);
  if (!s.empty()) return s;
  for (int k = 0; k < NOUT; k++) for (size_t i = 0; i < r.a[k].size(); i++) if (!same(x.a[k][i], r.a[k][i])) {
    std::ostringstream o; o.precision(17); o << out_name[k] << " element " << i << ": " << x.a[k][i] << " versus " << r.a[k][i]; return o.str();
  }
  return "";
}

inline bool nontrivial(const Res& r) { for (int k = 0; k < NOUT; k++) for (double v : r.a[k]) if (v != 0) return true; return false; }
} // namespace vf
