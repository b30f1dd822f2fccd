// wout files generated from a model, boozmn files decoded and compared with one.
#pragma once
#include "vmec.hpp"
#include "cdf.hpp"
#include <fcntl.h>
#include <malloc.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vf {

struct Opts { int ints = cdf::DOUBLE, scalars = cdf::INT, order = 0, version = 1, decoys = 1, lasym = 1, lasym_type = -1; };

inline cdf::File wout_file(const Vmec& v, double aspect, const Opts& o = Opts()) {
  cdf::File f; f.version = o.version; const Eq& e = v.e;
  int rad = f.adddim("radius", v.ns), mn = f.adddim("mn_mode", e.mn()), mq = f.adddim("mn_mode_nyq", e.mnq()), dm = f.adddim("dim_00003", 3);
  auto sc = [&](const char* n, double x, int t) { f.add(n, t, {}, {x}); };
  sc("lasym__logical__", e.asym ? o.lasym : 0, o.lasym_type >= 0 ? o.lasym_type : o.scalars); sc("ns", v.ns, o.scalars); sc("nfp", e.nfp, o.scalars); sc("mpol", e.mpol, o.scalars); sc("ntor", e.ntor, o.scalars);
  sc("mnmax", e.mn(), o.scalars); sc("mnmax_nyq", e.mnq(), o.scalars); sc("aspect", aspect, cdf::DOUBLE);
  auto iv = [&](const vector<int>& x) { return vector<double>(x.begin(), x.end()); };
  f.add("xm", o.ints, {mn}, iv(e.xm)); f.add("xn", o.ints, {mn}, iv(e.xn)); f.add("xm_nyq", o.ints, {mq}, iv(e.xmq)); f.add("xn_nyq", o.ints, {mq}, iv(e.xnq));
  f.add("iotas", cdf::DOUBLE, {rad}, v.iotas);
  for (int k = 0; k < NIN; k++) if (!v.full[k].empty()) f.add(in_name[k], cdf::DOUBLE, {rad, in_nyq(k) ? mq : mn}, v.full[k]);
  auto prof = [&](const vector<double>& x, int id) { vector<double> r = x; if (r.empty()) for (int j = 0; j < v.ns; j++) r.push_back(rnd(id, j)); return r; };
  f.add("phipf", cdf::DOUBLE, {rad}, prof(v.phip, 1)); f.add("chi", cdf::DOUBLE, {rad}, prof(v.chi, 2)); f.add("pres", cdf::DOUBLE, {rad}, prof(v.pres, 3)); f.add("phi", cdf::DOUBLE, {rad}, prof(v.phi, 4));
  if (o.decoys) {     // other contents of wout files
    for (const char* n : {"iotaf", "presf", "phips", "phip", "chipf", "jcurv", "buco", "bvco", "mass", "beta_vol", "vp"}) f.add(n, cdf::DOUBLE, {rad}, prof({}, hash_str(n) % 1000));
    for (const char* n : {"gmnc", "bsupumnc", "bsupvmnc", "bsubsmns", "currumnc"}) { vector<double> d; for (int i = 0; i < v.ns * e.mnq(); i++) d.push_back(rnd(hash_str(n), i)); f.add(n, cdf::DOUBLE, {rad, mq}, d); }
    sc("rmax_surf", 7.5, cdf::DOUBLE); sc("ier_flag", 0, cdf::INT); sc("signgs", -1, cdf::INT);
    cdf::Var t; t.name = "mgrid_mode"; t.type = cdf::CHAR; t.dims = {dm}; t.text = "N  "; f.vars.push_back(t);
  }
  if (o.order == 1) std::reverse(f.vars.begin(), f.vars.end());
  if (o.order >= 2) std::rotate(f.vars.begin(), f.vars.begin() + (o.order * 5) % f.vars.size(), f.vars.end());
  return f;
}

inline void fill_vmec(Vmec& v, uint64_t seed) {
  // generic data: transformable on every surface
  Eq g = v.e; g.ns = v.ns; fill_generic(g, seed);
  for (int k = 0; k < NIN; k++) if (!v.full[k].empty()) { v.full[k] = g.a[k]; for (int j = 0; j < g.rows(k); j++) { bool half = in_nyq(k) || k == LMNS || k == LMNC; int m = in_nyq(k) ? g.xmq[j] : g.xm[j]; if (half || m % 2) v.full[k][j] = 0; } }
  for (int j = 0; j < v.ns; j++) { v.iotas[j] = j ? 0.31 + 0.07 * rnd(seed, 99, j) : 0; if (v.flux) { v.phip[j] = 0.8 + 0.1 * rnd(seed, 91, j); v.chi[j] = rnd(seed, 92, j); v.pres[j] = 50 + rnd(seed, 93, j); v.phi[j] = -0.6 * j + 0.01 * rnd(seed, 94, j); } }
}

inline Vmec make_vmec(int ns, int asym, int nfp, int mpol, int ntor, int mq, int nq, bool flux, uint64_t seed) { Vmec v = c09_shape(ns, asym, nfp, mpol, ntor, mq, nq, flux); fill_vmec(v, seed); return v; }

// ---- all public attributes of an object --------------------------------------

struct Snap { vector<std::pair<string, vector<double>>> v; };
inline Snap snap(BX& b) {
  Snap s;
  auto sc = [&](const char* n, double x) { s.v.push_back({n, {x}}); };
  auto V = [&](const char* n, const booz_xform::Vector& x) { s.v.push_back({n, fromv(x)}); s.v.back().second.push_back(x.size()); };
  auto I = [&](const char* n, const booz_xform::IntVector& x) { vector<double> d(x.data(), x.data() + x.size()); d.push_back(x.size()); s.v.push_back({n, d}); };
  auto M = [&](const char* n, const booz_xform::Matrix& x) { vector<double> d(x.data(), x.data() + x.size()); d.push_back(x.rows()); d.push_back(x.cols()); s.v.push_back({n, d}); };
  sc("verbose", b.verbose); sc("mboz", b.mboz); sc("nboz", b.nboz); sc("asym", b.asym); sc("nfp", b.nfp); sc("mpol", b.mpol); sc("ntor", b.ntor); sc("mnmax", b.mnmax);
  sc("mpol_nyq", b.mpol_nyq); sc("ntor_nyq", b.ntor_nyq); sc("mnmax_nyq", b.mnmax_nyq); sc("ns_in", b.ns_in); sc("aspect", b.aspect); sc("toroidal_flux", b.toroidal_flux);
  I("xm", b.xm); I("xn", b.xn); I("xm_nyq", b.xm_nyq); I("xn_nyq", b.xn_nyq); I("compute_surfs", b.compute_surfs); V("s_in", b.s_in); V("iota", b.iota);
  for (int k = 0; k < NIN; k++) M(in_name[k], *in_ptr(b, k));
  V("phip", b.phip); V("chi", b.chi); V("pres", b.pres); V("phi", b.phi);
  sc("ns_b", b.ns_b); sc("mnboz", b.mnboz); I("xm_b", b.xm_b); I("xn_b", b.xn_b); V("s_b", b.s_b);
  V("Boozer_G", b.Boozer_G); V("Boozer_I", b.Boozer_I); V("Boozer_G_all", b.Boozer_G_all); V("Boozer_I_all", b.Boozer_I_all);
  for (int k = 0; k < NOUT; k++) M(out_name[k], *out_ptr(b, k));
  return s;
}
inline uint64_t snap_hash(const Snap& s) { uint64_t h = 3; for (auto& p : s.v) h = mix(hash_bytes(p.second.data(), 8 * p.second.size(), h) + 1); return h; }
// exact comparison; names in skip are ignored. rel > 0: relative to the largest value of the array.
inline string snap_cmp(const Snap& a, const Snap& b, const std::set<string>& skip = {}, double rel = 0) {
  for (size_t i = 0; i < a.v.size(); i++) {
    if (skip.count(a.v[i].first)) continue;
    auto& x = a.v[i].second; auto& y = b.v[i].second; std::ostringstream o; o.precision(17);
    if (x.size() != y.size()) { o << a.v[i].first << " has " << x.size() << " versus " << y.size() << " entries"; return o.str(); }
    double big = 0; for (double q : y) if (std::isfinite(q)) big = std::max(big, std::fabs(q));
    for (size_t j = 0; j < x.size(); j++) if (!same(x[j], y[j]) && !(std::fabs(x[j] - y[j]) <= rel * big)) { o << a.v[i].first << " element " << j << ": " << x[j] << " expected " << y[j]; return o.str(); }
  }
  return "";
}

// ---- the boozmn format --------------------------------------------------------

// Expected contents of the file for the present state of an object.
struct Exp { string name; int type; vector<string> dims; vector<double> v; };
inline vector<Exp> boozmn_expect(BX& b) {
  vector<Exp> r;
  auto sc = [&](const char* n, int t, double x) { r.push_back({n, t, {}, {x}}); };
  auto lead = [&](const booz_xform::Vector& x) { vector<double> d = {0}; for (int j = 0; j < x.size(); j++) d.push_back(x[j]); return d; };
  int ns = b.ns_in; using namespace cdf;
  sc("lasym__logical__", INT, b.asym ? 1 : 0); sc("ns_b", INT, ns + 1); sc("nfp_b", INT, b.nfp); sc("mboz_b", INT, b.mboz); sc("nboz_b", INT, b.nboz); sc("mnboz_b", INT, b.xm_b.size());
  sc("aspect_b", DOUBLE, b.aspect); sc("rmax_b", DOUBLE, 0); sc("rmin_b", DOUBLE, 0); sc("betaxis_b", DOUBLE, 0);
  vector<double> jl; for (int j = 0; j < b.compute_surfs.size(); j++) jl.push_back(b.compute_surfs[j] + 2);
  r.push_back({"jlist", INT, {"comput_surfs"}, jl});
  auto iv = [&](const booz_xform::IntVector& x) { return vector<double>(x.data(), x.data() + x.size()); };
  r.push_back({"ixm_b", INT, {"mn_modes"}, iv(b.xm_b)}); r.push_back({"ixn_b", INT, {"mn_modes"}, iv(b.xn_b)});
  r.push_back({"iota_b", DOUBLE, {"radius"}, lead(b.iota)}); r.push_back({"buco_b", DOUBLE, {"radius"}, lead(b.Boozer_I_all)}); r.push_back({"bvco_b", DOUBLE, {"radius"}, lead(b.Boozer_G_all)});
  vector<double> z(ns + 1, 0.0);
  auto full = [&](const booz_xform::Vector& x) { return x.size() ? fromv(x) : z; };
  vector<double> pp = full(b.phip); pp[0] = 0;
  r.push_back({"beta_b", DOUBLE, {"radius"}, z}); r.push_back({"phip_b", DOUBLE, {"radius"}, pp}); r.push_back({"chi_b", DOUBLE, {"radius"}, full(b.chi)}); r.push_back({"pres_b", DOUBLE, {"radius"}, full(b.pres)}); r.push_back({"phi_b", DOUBLE, {"radius"}, full(b.phi)});
  static const char* fn[NOUT] = {"bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b", "bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"};
  for (int k = 0; k < NOUT; k++) {
    if (k >= BMNS_B && !b.asym) continue;
    auto* m = out_ptr(b, k); vector<double> d(m->data(), m->data() + m->size());
    if (k == NUMNS_B || k == NUMNC_B) for (auto& x : d) x = -x;
    r.push_back({fn[k], DOUBLE, {"pack_rad", "mn_modes"}, d});
  }
  return r;
}

inline string boozmn_check(const string& path, BX& b, const vector<Exp>& ex) {
  cdf::File f;
  try { f = cdf::read(path); } catch (std::exception& e) { return string("file cannot be decoded: ") + e.what(); }
  std::ostringstream o; o.precision(17);
  std::pair<const char*, size_t> dims[] = {{"radius", (size_t)b.ns_in + 1}, {"mn_mode", (size_t)b.xm_b.size()}, {"mn_modes", (size_t)b.xm_b.size()}, {"comput_surfs", (size_t)b.compute_surfs.size()}, {"pack_rad", (size_t)b.compute_surfs.size()}};
  for (auto& d : dims) { int i = f.dim(d.first); if (i < 0) return string("dimension ") + d.first + " is missing"; if (f.dims[i].len != d.second) { o << "dimension " << d.first << " is " << f.dims[i].len << " expected " << d.second; return o.str(); } }
  for (auto& e : ex) {
    const cdf::Var* v = f.var(e.name);
    if (!v) return "variable " + e.name + " is missing";
    if (v->type != e.type) return "variable " + e.name + " has type " + std::to_string(v->type);
    if (v->dims.size() != e.dims.size()) return "variable " + e.name + " has " + std::to_string(v->dims.size()) + " dimensions";
    for (size_t i = 0; i < e.dims.size(); i++) if (f.dims[v->dims[i]].name != e.dims[i]) return "variable " + e.name + " has dimension " + f.dims[v->dims[i]].name + " expected " + e.dims[i];
    if (v->v.size() != e.v.size()) return "variable " + e.name + " has " + std::to_string(v->v.size()) + " values, expected " + std::to_string(e.v.size());
    for (size_t i = 0; i < e.v.size(); i++) if (!same(v->v[i], e.v[i])) { o << e.name << "[" << i << "]=" << v->v[i] << " expected " << e.v[i]; return o.str(); }
  }
  const cdf::Var* v = f.var("version");
  if (!v || v->type != cdf::CHAR || v->dims.size() != 1) return "version is missing or not a string";
  string want = "C++/Python booz_xform " + booz_xform::version;
  if (v->text != want) return "version is \"" + v->text + "\" expected \"" + want + "\"";
  for (size_t i = 0; i < f.vars.size(); i++) for (size_t j = 0; j < i; j++) if (f.vars[i].name == f.vars[j].name) return "duplicate variable " + f.vars[i].name;
  return "";
}

// variables (not attributes) of two files are the same
inline string same_contents(const string& p, const string& q) {
  cdf::File a, b;
  try { a = cdf::read(p); b = cdf::read(q); } catch (std::exception& e) { return string("cannot be decoded: ") + e.what(); }
  if (a.vars.size() != b.vars.size()) return "number of variables differs";
  for (auto& v : a.vars) {
    const cdf::Var* w = b.var(v.name);
    if (!w) return "variable " + v.name + " is missing in one file";
    if (w->type != v.type || w->text != v.text || w->v.size() != v.v.size() || w->dims.size() != v.dims.size()) return "variable " + v.name + " differs in type or shape";
    for (size_t i = 0; i < v.dims.size(); i++) if (a.dims[v.dims[i]].name != b.dims[w->dims[i]].name || a.dims[v.dims[i]].len != b.dims[w->dims[i]].len) return "dimensions of " + v.name + " differ";
    for (size_t i = 0; i < v.v.size(); i++) if (!same(v.v[i], w->v[i])) return "variable " + v.name + " differs at element " + std::to_string(i);
  }
  return "";
}

inline bool exists(const string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }

// fill the unused stack below the caller, so that uninitialised locals have a known pattern
__attribute__((noinline)) inline void fill_stack(int byte) { volatile char buf[65536]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = byte; }
inline void fill_memory(int byte) { mallopt(M_PERTURB, byte); fill_stack(byte); }
} // namespace vf
