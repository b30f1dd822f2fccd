// Reading and writing files: C10, C11, C12, C14 and histories (C07).
#include "files.hpp"
#include "spell.hpp"
#include <iostream>
#include <fstream>
#include <map>
using namespace vf;

// every allocation is filled with a chosen byte, and counted
#ifdef VF_MALLOC
#include <malloc.h>
#include <errno.h>
#include <atomic>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static volatile int g_fill = -1;
static std::atomic<long> g_blocks, g_bytes;
static void* took(void* p) { if (p) { g_blocks++; g_bytes += malloc_usable_size(p); } return p; }
static void gave(void* p) { if (p) { g_blocks--; g_bytes -= malloc_usable_size(p); } }
extern "C" {
void* malloc(size_t n) { void* p = took(__libc_malloc(n)); if (p && g_fill >= 0) memset(p, g_fill, n); return p; }
void free(void* p) { gave(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { gave(p); void* q = __libc_realloc(p, n); if (q) took(q); else if (n) took(p); return q; }
void* memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = took(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}
static void set_fill(int b) { g_fill = b; if (b >= 0) fill_stack(b); }
#else
static void set_fill(int) {}
#endif

static BX* fresh() { return new BX(); }

// silence the console (error messages are printed by the reader)
struct Quiet { std::streambuf* old; std::ostringstream s; Quiet() { old = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(old); } };

static vector<vector<int>> selections(int n) {
  vector<vector<int>> r;
  vector<int> all; for (int j = 0; j < n; j++) all.push_back(j);
  r.push_back(all);
  if (n > 1) { vector<int> rev(all.rbegin(), all.rend()); r.push_back(rev); r.push_back({n - 1}); r.push_back({0}); r.push_back({n - 1, 0, n - 1}); r.push_back({0, n - 1}); }
  if (n > 3) r.push_back({3, 1, 2});
  return r;
}

// ---- C10 -------------------------------------------------------------------

static string read_check(const Vmec& v0, double aspect, BX& b, bool flux) {
  Vmec v = v0; v.flux = flux;
  if (!flux) { v.phip.clear(); v.chi.clear(); v.pres.clear(); v.phi.clear(); }
  const Eq& e = v.e; std::ostringstream o; o.precision(17);
  std::pair<const char*, std::pair<int, int>> ints[] = {{"nfp", {b.nfp, e.nfp}}, {"mpol", {b.mpol, e.mpol}}, {"ntor", {b.ntor, e.ntor}}, {"mnmax", {b.mnmax, e.mn()}}, {"mnmax_nyq", {b.mnmax_nyq, e.mnq()}}, {"mpol_nyq", {b.mpol_nyq, e.mpolq}}, {"ntor_nyq", {b.ntor_nyq, e.ntorq}}, {"asym", {b.asym, e.asym}}};
  for (auto& p : ints) if (p.second.first != p.second.second) { o << p.first << "=" << p.second.first << " expected " << p.second.second; return o.str(); }
  if (!same(b.aspect, aspect)) { o << "aspect=" << b.aspect << " expected " << aspect; return o.str(); }
  if (fromi(b.xm) != e.xm) return "xm differs"; if (fromi(b.xn) != e.xn) return "xn differs"; if (fromi(b.xm_nyq) != e.xmq) return "xm_nyq differs"; if (fromi(b.xn_nyq) != e.xnq) return "xn_nyq differs";
  return c09_compare(v, b);
}

static void c10_read(Ctx& c) {
  int tn[] = {cdf::DOUBLE, cdf::INT, cdf::SHORT, cdf::FLOAT};
  auto one = [&](const Vmec& v, const Opts& op, int flux, int how, double aspect) {
    if (!c.next()) return;
    std::ostringstream d; d << "wout ns=" << v.ns << " " << v.e.str() << " flux=" << flux << " mode number type " << op.ints << " scalar type " << op.scalars << " order " << op.order << (op.lasym != 1 || op.lasym_type >= 0 ? " lasym " + std::to_string(op.lasym) + " type " + std::to_string(op.lasym_type) : "") << " format " << op.version << (op.decoys ? "" : " without other variables") << (how ? " object reused" : "");
    c.begin(d.str()); c.state(hash_str(d.str())); c.nontrivial++; c.transitions++;
    string p = "wout_c10.nc"; cdf::write(p, wout_file(v, aspect, op));
    BX b; b.verbose = 0;
    try {
      if (how) { Vmec w = make_vmec(4, !v.e.asym, 2, 2, 1, 2, 2, true, 9); cdf::write("wout_other.nc", wout_file(w, 3, Opts())); b.read_wout("wout_other.nc", how == 2); }
      if (flux) b.read_wout(p, true); else if (how == 2) b.read_wout(p, false); else b.read_wout(p);
    }
    catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); return; }
    string m = read_check(v, aspect, b, flux);
    if (!m.empty()) { c.fail(m); return; }
    if (b.phip.size() && !flux) c.fail("flux profiles are not empty");
  };
  for (int ns = 2; ns <= (c.thorough ? 9 : 5); ns++) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int mpol = 1; mpol <= 4; mpol++) for (int ntor = 0; ntor <= 2; ntor++) for (int mq = 0; mq <= 3; mq++) for (int nq = 0; nq <= 2; nq++) for (int flux = 0; flux < 2; flux++) {
    Vmec v = make_vmec(ns, asym, nfp, mpol, ntor, mq, nq, true, 70 + ns);
    for (int t = 0; t < (c.thorough ? 4 : 2); t++) { Opts op; op.ints = tn[t]; op.order = (ns + mpol + ntor + mq + nq + t) % 5; one(v, op, flux, (mpol + nq) % 3, 1.5 + ns); }
  }
  // storage types, orders, format versions, all combinations
  for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) for (int how = 0; how < 3; how++) for (int ti : tn) for (int ts : {cdf::INT, cdf::SHORT, cdf::DOUBLE, cdf::BYTE}) for (int order = 0; order < (c.thorough ? 12 : 6); order++) for (int ver = 1; ver <= 2; ver++) for (int dec = 0; dec < 2; dec++) {
    Opts op; op.ints = ti; op.scalars = ts; op.order = order; op.version = ver; op.decoys = dec;
    // coinciding shapes: ns = mnmax = mnmax_nyq, so exchanged arrays fit everywhere
    one(make_vmec(5, asym, 2, 2, 1, 1, 1, true, 5), op, flux, how, -2.25);
  }
  // the logical is true for everything but 0
  for (int how = 0; how < 3; how++) for (int flux = 0; flux < 2; flux++) for (int ts : {cdf::BYTE, cdf::SHORT, cdf::INT, cdf::FLOAT, cdf::DOUBLE}) for (int la : {1, -1, 2, 100, -128, 127, 256, 65536, 16777216}) {
    if ((ts == cdf::BYTE && (la > 127 || la < -128)) || (ts == cdf::SHORT && la > 32767)) continue;
    Opts op; op.scalars = cdf::INT; op.lasym = la; op.lasym_type = ts; one(make_vmec(5, 1, 2, 2, 1, 2, 1, true, 5), op, flux, how, 2);
  }
  // the stored files against an independent decoding needs HDF5 or classic: decode if classic
  const char* files[] = {"circular_tokamak", "up_down_asymmetric_tokamak", "li383_1.4m", "LandremanSenguptaPlunk_section5p3"};
  for (auto fn : files) for (int flux = 0; flux < 2; flux++) {
    if (!c.next()) continue;
    string p = string("/repo/tests/test_files/wout_") + fn + ".nc";
    c.begin("stored " + string(fn) + " flux=" + std::to_string(flux)); c.state(hash_str(c.desc)); c.transitions++;
    cdf::File f; try { f = cdf::read(p); } catch (std::exception&) { c.count("stored_files_not_classic"); continue; }
    auto sc = [&](const char* n) { return f.var(n)->v[0]; };
    Vmec v; v.ns = sc("ns"); v.flux = true; Eq& e = v.e; e.asym = sc("lasym__logical__"); e.nfp = sc("nfp"); e.mpol = sc("mpol"); e.ntor = sc("ntor"); e.ns = v.ns;
    auto iv = [&](const char* n) { vector<int> r; for (double x : f.var(n)->v) r.push_back(x); return r; };
    e.xm = iv("xm"); e.xn = iv("xn"); e.xmq = iv("xm_nyq"); e.xnq = iv("xn_nyq"); e.mpolq = e.ntorq = 0; for (int m : e.xmq) e.mpolq = std::max(e.mpolq, m); for (int n : e.xnq) e.ntorq = std::max(e.ntorq, n / e.nfp);
    v.iotas = f.var("iotas")->v; for (int k = 0; k < NIN; k++) if (!in_asym(k) || e.asym) v.full[k] = f.var(in_name[k])->v;
    v.phip = f.var("phipf")->v; v.chi = f.var("chi")->v; v.pres = f.var("pres")->v; v.phi = f.var("phi")->v;
    BX b; b.verbose = 0; try { b.read_wout(p, flux); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
    c.nontrivial++;
    string m = read_check(v, sc("aspect"), b, flux); if (!m.empty()) c.fail(m);
  }
}

// ---- C11 -------------------------------------------------------------------

struct Case { int ns, asym, nfp, mpol, ntor, mb, nb, flux, sel; };

// load + settings; throws if anything fails
static void prepare(BX& b, const Vmec& v, const Case& k, const vector<int>& sel, const string& tag) {
  string p = "wout_" + tag + ".nc"; cdf::write(p, wout_file(v, 4.25 + k.ns)); b.verbose = 0;
  b.read_wout(p, k.flux); b.mboz = k.mb; b.nboz = k.nb; b.compute_surfs = toi(sel);
}

static void for_cases(Ctx& c, const std::function<void(const Case&, const vector<int>&)>& f) {
  for (int ns = 2; ns <= (c.thorough ? 8 : 5); ns++) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 4}) for (int mpol : {1, 3}) for (int ntor : {0, 2}) for (int mb : {1, 2, 4}) for (int nb : {0, 1, 3}) for (int flux = 0; flux < 2; flux++) {
    auto sels = selections(ns - 1);
    for (size_t s = 0; s < sels.size(); s++) f({ns, asym, nfp, mpol, ntor, mb, nb, flux, (int)s}, sels[s]);
  }
}
static string cdesc(const Case& k, const vector<int>& sel) { std::ostringstream o; o << "ns=" << k.ns << " asym=" << k.asym << " nfp=" << k.nfp << " mpol=" << k.mpol << " ntor=" << k.ntor << " mboz=" << k.mb << " nboz=" << k.nb << " flux=" << k.flux << " surfaces"; for (int s : sel) o << ' ' << s; return o.str(); }

static void known_phip(Ctx& c) { if (c.known.empty()) c.known.push_back({"C11-phip0", "phip[0] of the object is set to 0 by write_boozmn"}); }

static void c11_write(Ctx& c) {
  for_cases(c, [&](const Case& k, const vector<int>& sel) {
    for (int pre = 0; pre < 5; pre++) {
      if (!c.next()) continue;
      const char* nm[] = {"no file", "garbage", "longer file", "another boozmn file", "read by another process"};
      c.begin("write " + cdesc(k, sel) + " existing: " + nm[pre]); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
      Quiet q;
      string p = "boozmn_c11.nc"; unlink(p.c_str());
      Vmec v = make_vmec(k.ns, k.asym, k.nfp, k.mpol, k.ntor, 2, k.ntor, true, 31 + k.sel);
      string bytes[3];
      for (int fill = 0; fill < 3; fill++) {
        set_fill(fill == 2 ? 0xFF : fill ? 0xCB : 0x3E);
        try {
          BX* b = fresh(); prepare(*b, v, k, sel, "c11"); b->run();
          if (fill == 0) {
            if (pre == 1) cdf::spit(p, string("garbage that is not NetCDF"));
            if (pre == 2) cdf::spit(p, string(3000000 / 10, 'x'));
            if (pre == 3) { BX o; Vmec w = make_vmec(4, 1, 2, 2, 1, 2, 1, true, 5); cdf::write("wout_o.nc", wout_file(w, 1)); o.verbose = 0; o.read_wout("wout_o.nc", true); o.mboz = 5; o.nboz = 4; o.run(); o.write_boozmn(p); }
          } else unlink(p.c_str());
          int rd = -1; if (pre == 4 && fill == 0) { cdf::spit(p, "old contents"); rd = open(p.c_str(), O_RDONLY); }
          vector<Exp> ex = boozmn_expect(*b); Snap s0 = snap(*b);
          b->write_boozmn(p);
          if (rd >= 0) close(rd);
          set_fill(-1);
          string m = boozmn_check(p, *b, ex); if (!m.empty()) { c.fail(m); delete b; return; }
          bytes[fill] = cdf::slurp(p);
          Snap s1 = snap(*b);
          if (k.flux && b->phip.size() && v.phip[0] != 0 && b->phip[0] == 0) { known_phip(c); for (auto* s : {&s0, &s1}) for (auto& a : s->v) if (a.first == "phip") a.second[0] = 0; }
          m = snap_cmp(s1, s0); if (!m.empty()) { c.fail("object changed by writing: " + m); delete b; return; }
          b->write_boozmn(p);
          if (cdf::slurp(p) != bytes[fill]) { c.fail("writing twice gives another file"); delete b; return; }
          delete b;
        } catch (std::exception& ex) { set_fill(-1); c.fail(string("unexpected exception: ") + ex.what()); return; }
      }
      if (bytes[0] != bytes[1] || bytes[0] != bytes[2]) c.fail("the file depends on the previous contents of memory or of the file");
    }
  });
  // profiles set directly: values of the object, not of the file it came from
  for (int asym = 0; asym < 2; asym++) for (int var = 0; var < 12; var++) {
    if (!c.next()) continue;
    Case k{4, asym, 2, 2, 1, 3, 1, 1, 0}; c.begin("direct attributes variant " + std::to_string(var) + " asym=" + std::to_string(asym)); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    Quiet q; BX b; Vmec v = make_vmec(4, asym, 2, 2, 1, 2, 1, true, 3); prepare(b, v, k, {0, 2}, "c11d");
    if (var == 0) b.aspect = 0; if (var == 1) b.aspect = NAN; if (var == 2) b.aspect = 1e300; if (var == 3) b.pres = tov({1, 2, 3, 4}); if (var == 4) b.chi = tov({-1, 5, 6, 7}); if (var == 5) b.phip = tov({9, 8, 7, 6}); if (var == 6) b.phi = tov({0, 1, 2, 4}); if (var == 7) b.iota = tov({-1, -2, -3});
    if (var == 8) { b.phip = tov({}); b.chi = tov({}); b.pres = tov({}); b.phi = tov({}); } if (var == 9) b.s_in = tov({}); if (var == 10) b.toroidal_flux = 77; if (var == 11) b.verbose = 2;
    try { b.run(); vector<Exp> ex = boozmn_expect(b); b.write_boozmn("boozmn_d.nc"); string m = boozmn_check("boozmn_d.nc", b, ex); if (!m.empty()) c.fail(m); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
  }
}

// ---- C12 -------------------------------------------------------------------

// attributes that a boozmn file determines
static string trip_cmp(BX& a, BX& b, bool flux, bool chi = true) {
  std::ostringstream o; o.precision(17);
  std::pair<const char*, std::pair<int, int>> ints[] = {{"asym", {b.asym, a.asym}}, {"nfp", {b.nfp, a.nfp}}, {"mboz", {b.mboz, a.mboz}}, {"nboz", {b.nboz, a.nboz}}, {"mnboz", {b.mnboz, a.mnboz}}, {"ns_in", {b.ns_in, a.ns_in}}, {"ns_b", {b.ns_b, a.ns_b}}};
  for (auto& p : ints) if (p.second.first != p.second.second) { o << p.first << "=" << p.second.first << " expected " << p.second.second; return o.str(); }
  if (!same(a.aspect, b.aspect)) { o << "aspect=" << b.aspect << " expected " << a.aspect; return o.str(); }
  if (!same(a.toroidal_flux, b.toroidal_flux)) { o << "toroidal_flux=" << b.toroidal_flux << " expected " << a.toroidal_flux; return o.str(); }
  if (fromi(a.xm_b) != fromi(b.xm_b) || fromi(a.xn_b) != fromi(b.xn_b)) return "mode numbers differ";
  if (fromi(a.compute_surfs) != fromi(b.compute_surfs)) return "compute_surfs differs";
  auto V = [&](const char* n, const booz_xform::Vector& x, const booz_xform::Vector& y, double rel = 0) -> string { if (x.size() != y.size()) return string(n) + " has the wrong size " + std::to_string(y.size()); for (int j = 0; j < x.size(); j++) if (!same(x[j], y[j]) && !(std::fabs(x[j] - y[j]) <= rel)) { o << n << "[" << j << "]=" << y[j] << " expected " << x[j]; return o.str(); } return ""; };
  string m;
  if (!(m = V("iota", a.iota, b.iota)).empty() || !(m = V("Boozer_G", a.Boozer_G, b.Boozer_G)).empty() || !(m = V("Boozer_I", a.Boozer_I, b.Boozer_I)).empty() || !(m = V("Boozer_G_all", a.Boozer_G_all, b.Boozer_G_all)).empty() || !(m = V("Boozer_I_all", a.Boozer_I_all, b.Boozer_I_all)).empty() || !(m = V("s_b", a.s_b, b.s_b, 3e-16)).empty()) return m;
  const booz_xform::Vector* p[4] = {&a.phip, &a.chi, &a.pres, &a.phi}; const booz_xform::Vector* q[4] = {&b.phip, &b.chi, &b.pres, &b.phi}; const char* nm[4] = {"phip", "chi", "pres", "phi"};
  for (int t = 0; t < 4; t++) { booz_xform::Vector w; if (p[t]->size()) w = *p[t]; else { w.resize(a.ns_in + 1); w.setZero(); } if (t == 0) w[0] = 0; if (t == 1 && !chi) w.setZero(); if (!(m = V(nm[t], w, *q[t])).empty()) return m; }
  for (int k = 0; k < NOUT; k++) { auto *x = out_ptr(a, k), *y = out_ptr(b, k); if (x->rows() != y->rows() || x->cols() != y->cols()) { o << out_name[k] << " is " << y->rows() << " x " << y->cols() << " expected " << x->rows() << " x " << x->cols(); return o.str(); } for (int i = 0; i < x->size(); i++) { double u = x->data()[i], w = y->data()[i]; if (memcmp(&u, &w, 8) && !(u == 0 && w == 0)) { o << out_name[k] << " element " << i << ": " << w << " expected " << u; return o.str(); } } }
  return "";
}

static void dirty(BX& b, int how) {
  // target objects with other contents
  if (how == 0) return;
  b.verbose = 0;
  if (how == 1 || how == 3) { Vmec w = make_vmec(7, 1, 3, 3, 2, 3, 2, true, 8); cdf::write("wout_dirty.nc", wout_file(w, 1)); b.read_wout("wout_dirty.nc", true); b.mboz = 5; b.nboz = 3; b.run(); }
  if (how == 2) { Vmec w = make_vmec(2, 0, 1, 1, 0, 0, 0, false, 8); cdf::write("wout_dirty.nc", wout_file(w, 1)); b.read_wout("wout_dirty.nc"); b.mboz = 1; b.nboz = 0; b.run(); }
  if (how == 3) b.write_boozmn("boozmn_dirty.nc");
  if (how == 4) for (int k = 0; k < NOUT; k++) *out_ptr(b, k) = tom(vector<double>(21, 5.5), 3, 7);
}

static void c12_trip(Ctx& c) {
  for_cases(c, [&](const Case& k, const vector<int>& sel) {
    for (int how = 0; how < 5; how++) {
      if (!c.next()) continue;
      c.begin("round trip " + cdesc(k, sel) + " target object " + std::to_string(how)); c.state(hash_str(c.desc)); c.nontrivial++;
      Quiet q;
      Vmec v = make_vmec(k.ns, k.asym, k.nfp, k.mpol, k.ntor, 2, k.ntor, true, 12 + k.sel);
      try {
        BX a; prepare(a, v, k, sel, "c12"); a.run(); a.write_boozmn("boozmn_1.nc");
        BX b; dirty(b, how); b.verbose = how == 1 ? 2 : 0; b.read_boozmn("boozmn_1.nc"); c.transitions += 2;
        string m = trip_cmp(a, b, k.flux); if (!m.empty()) { c.fail(m); return; }
        b.verbose = 0; b.write_boozmn("boozmn_2.nc"); m = same_contents("boozmn_1.nc", "boozmn_2.nc"); if (!m.empty()) { c.fail("second generation: " + m); return; }
        BX d; dirty(d, (how + 1) % 5); d.verbose = 0; d.read_boozmn("boozmn_2.nc"); m = trip_cmp(a, d, k.flux); if (!m.empty()) { c.fail("second generation: " + m); return; }
        b.read_boozmn("boozmn_2.nc"); d.write_boozmn("boozmn_3.nc"); m = same_contents("boozmn_2.nc", "boozmn_3.nc"); if (!m.empty()) { c.fail("third generation: " + m); return; }
        c.transitions += 4;
        // files without the poloidal flux (and with other variable orders)
        cdf::File f = cdf::read("boozmn_1.nc"); cdf::File g = f; g.vars.clear(); for (auto& x : f.vars) if (x.name != "chi_b") g.vars.push_back(x);
        if (how % 2) std::reverse(g.vars.begin(), g.vars.end());
        cdf::write("boozmn_f.nc", g);
        BX h; dirty(h, how); h.verbose = 0; h.read_boozmn("boozmn_f.nc"); m = trip_cmp(a, h, k.flux, false); if (!m.empty()) { c.fail("file without chi_b: " + m); return; }
        c.transitions++;
      } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
    }
  });
  // every chain of read/write over two objects and three files
  int L = c.thorough ? 7 : 5; i64 tot = 1; for (int i = 0; i < L; i++) tot *= 8;
  std::map<string, int> dummy;
  for (i64 code = 0; code < tot; code++) {
    if (!c.next()) continue;
    std::ostringstream d; d << "chain"; i64 t = code; for (int i = 0; i < L; i++) { static const char* on[8] = {"A<-1", "A<-2", "A<-3", "B<-1", "B<-2", "A->3", "B->2", "B->3"}; d << ' ' << on[t % 8]; t /= 8; }
    c.begin(d.str()); Quiet q;
    static bool have = false; static string base[3];
    if (!have) { have = true; Case ks[3] = {{4, 0, 2, 2, 1, 3, 1, 1, 0}, {3, 1, 3, 2, 1, 2, 2, 0, 0}, {6, 0, 1, 3, 0, 4, 0, 0, 0}}; vector<int> ss[3] = {{2, 0}, {0, 1}, {4}}; for (int i = 0; i < 3; i++) { BX b; Vmec v = make_vmec(ks[i].ns, ks[i].asym, ks[i].nfp, ks[i].mpol, ks[i].ntor, 2, ks[i].ntor, true, 40 + i); prepare(b, v, ks[i], ss[i], "ch"); b.run(); b.write_boozmn("boozmn_b" + std::to_string(i) + ".nc"); base[i] = cdf::slurp("boozmn_b" + std::to_string(i) + ".nc"); } }
    for (int i = 0; i < 3; i++) cdf::spit("f" + std::to_string(i + 1) + ".nc", base[i]);
    int file[4] = {0, 0, 1, 2}, A = -1, B = -1; BX a, b; a.verbose = b.verbose = 0; t = code; bool bad = false;
    try {
      for (int i = 0; i < L && !bad; i++) {
        int op = t % 8; t /= 8; c.transitions++;
        if (op < 3) { a.read_boozmn("f" + std::to_string(op + 1) + ".nc"); A = file[op + 1]; }
        else if (op < 5) { b.read_boozmn("f" + std::to_string(op - 2) + ".nc"); B = file[op - 2]; }
        else { int who = op == 5 ? A : B, to = op == 6 ? 2 : 3; if (who < 0) continue; (op == 5 ? a : b).write_boozmn("f" + std::to_string(to) + ".nc"); file[to] = who; }
      }
      c.state(mix(file[2] * 64 + file[3] * 16 + (A + 1) * 4 + B + 1));
      for (int i = 1; i <= 3 && !bad; i++) { string m = same_contents("boozmn_b" + std::to_string(file[i]) + ".nc", "f" + std::to_string(i) + ".nc"); if (!m.empty()) { c.fail("file " + std::to_string(i) + ": " + m); bad = true; } }
    } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
    c.nontrivial++;
  }
  // stored files of the Fortran code
  const char* files[] = {"circular_tokamak", "up_down_asymmetric_tokamak", "li383_1.4m", "li383_1.4m_manySurfs", "LandremanSenguptaPlunk_section5p3"};
  for (auto fn : files) {
    if (!c.next()) continue;
    c.begin("stored boozmn " + string(fn)); c.state(hash_str(c.desc)); c.transitions++; Quiet q;
    string p = string("/repo/tests/test_files/boozmn_") + fn + ".nc"; cdf::File f; try { f = cdf::read(p); } catch (std::exception&) { c.count("stored_files_not_classic"); continue; }
    try {
      BX b; b.verbose = 0; b.read_boozmn(p); c.nontrivial++;
      static const char* nmf[NOUT] = {"bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b", "bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"};
      bool bad = false;
      for (int k = 0; k < NOUT && !bad; k++) { auto* m = out_ptr(b, k); const cdf::Var* v = f.var(nmf[k]); if (k >= BMNS_B && !b.asym) { if (m->size()) { c.fail(string(out_name[k]) + " is not empty"); bad = true; } continue; } if (!v || (size_t)m->size() != v->v.size()) { c.fail(string(out_name[k]) + " has the wrong size"); bad = true; break; } double sg = k == NUMNS_B || k == NUMNC_B ? -1 : 1; for (int i = 0; i < m->size(); i++) if (!same(m->data()[i], sg * v->v[i])) { c.fail(string(out_name[k]) + " differs from the file"); bad = true; break; } }
      auto P = [&](const char* n, const booz_xform::Vector& x, int off) { const cdf::Var* v = f.var(n); if (bad) return; for (int i = 0; i < x.size(); i++) { double w = v ? v->v[i + off] : 0; if (!same(x[i], w)) { c.fail(string(n) + " differs from the file"); bad = true; return; } } };
      P("iota_b", b.iota, 1); P("bvco_b", b.Boozer_G_all, 1); P("buco_b", b.Boozer_I_all, 1); P("phip_b", b.phip, 0); P("phi_b", b.phi, 0); P("pres_b", b.pres, 0); P("chi_b", b.chi, 0);
      if (!bad) { if (b.chi.size() != b.ns_in + 1) c.fail("chi has the wrong size"); for (int i = 0; i < b.compute_surfs.size(); i++) if (b.compute_surfs[i] != f.var("jlist")->v[i] - 2) { c.fail("compute_surfs is not jlist - 2"); break; } }
      if (!bad) { b.write_boozmn("boozmn_s.nc"); BX d; d.verbose = 0; d.read_boozmn("boozmn_s.nc"); b.phip[0] = 0; string m = trip_cmp(b, d, true); if (!m.empty()) c.fail("rewritten: " + m); }
    } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
  }
}

#include "io_more.inc"

// ---- large files, other file formats, special values, file names ----------------

// the same file in another format, written by the library
#include <netcdf.h>
static void convert(const cdf::File& f, const string& path, int mode) {
  int id, e = nc_create(path.c_str(), NC_CLOBBER | mode, &id); auto ck = [&](int r) { if (r) throw std::logic_error(string("converting: ") + nc_strerror(r)); }; ck(e);
  vector<int> dim, var; for (auto& d : f.dims) { int k; ck(nc_def_dim(id, d.name.c_str(), d.len, &k)); dim.push_back(k); }
  for (auto& v : f.vars) { vector<int> ds; for (int d : v.dims) ds.push_back(dim[d]); int k; ck(nc_def_var(id, v.name.c_str(), v.type, ds.size(), ds.data(), &k)); var.push_back(k); }
  ck(nc_enddef(id));
  for (size_t i = 0; i < f.vars.size(); i++) { auto& v = f.vars[i]; if (v.type == cdf::CHAR) { string t = v.text; t.resize(f.count(v), ' '); ck(nc_put_var_text(id, var[i], t.c_str())); } else ck(nc_put_var_double(id, var[i], v.v.data())); }
  ck(nc_close(id));
}

static void c10_formats(Ctx& c) {
  int modes[] = {0, NC_64BIT_OFFSET, NC_64BIT_DATA, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL};
  for (int fm = 0; fm < 5; fm++) for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) for (int ns : {2, 3, 5, 20}) for (int ti : {cdf::DOUBLE, cdf::INT}) for (int sh = 0; sh < 3; sh++) {
    if (!c.next()) continue;
    int S[3][5] = {{1, 2, 0, 3, 0}, {3, 3, 2, 2, 1}, {2, 1, 1, 0, 2}};
    Vmec v = make_vmec(ns, asym, S[sh][0], S[sh][1], S[sh][2], S[sh][3], S[sh][4], true, 60 + sh); Opts o; o.ints = ti;
    c.begin("format " + std::to_string(fm) + " ns=" + std::to_string(ns) + " flux=" + std::to_string(flux) + " type " + std::to_string(ti) + " " + v.e.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    convert(wout_file(v, 2.75, o), "wout_fmt.nc", modes[fm]);
    BX b; b.verbose = 0; try { b.read_wout("wout_fmt.nc", flux); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
    string m = read_check(v, 2.75, b, flux); if (!m.empty()) c.fail(m);
  }
  // sizes
  for (int asym = 0; asym < 2; asym++) for (int ns : {2, 9, 33, 64, 65, 100, 127, 128, 129, 130, 199, 255, 256, 257, 300, 513}) for (int sh = 0; sh < 4; sh++) {
    if (!c.next()) continue;
    int S[4][5] = {{1, 2, 1, 2, 1}, {5, 6, 5, 7, 6}, {2, 1, 0, 40, 0}, {3, 20, 2, 1, 1}};
    if (ns > 130 && sh == 1 && !c.thorough && ns % 2) continue;
    Vmec v = make_vmec(ns, asym, S[sh][0], S[sh][1], S[sh][2], S[sh][3], S[sh][4], true, 80 + sh);
    c.begin("large ns=" + std::to_string(ns) + " " + v.e.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    cdf::write("wout_big.nc", wout_file(v, 9.25));
    BX b; b.verbose = 0; try { b.read_wout("wout_big.nc", true); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
    string m = read_check(v, 9.25, b, true); if (!m.empty()) c.fail(m);
  }
  for (int asym = 0; asym < 2; asym++) for (int mp = 1; mp <= (c.thorough ? 60 : 40); mp++) for (int nt : {0, 1, 7, 30}) for (int nyq = 0; nyq < 2; nyq++) {
    if (!c.next()) continue;
    Vmec v = nyq ? make_vmec(3, asym, 1 + mp % 7, 2, 1, mp, nt, true, mp) : make_vmec(3, asym, 1 + mp % 7, mp, nt, 2, 1, true, mp);
    c.begin("many modes " + v.e.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    cdf::write("wout_big.nc", wout_file(v, 9.25));
    BX b; b.verbose = 0; try { b.read_wout("wout_big.nc", true); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
    string m = read_check(v, 9.25, b, true); if (!m.empty()) c.fail(m);
  }
  // values: no number is special (only what regridding does to them)
  static const double SP[] = {0, -0.0, 1e-300, -1e-300, 4.9e-324, 1e-20, -1e-12, 1e12, 1e300, -1e300, 0.1, 1.0 / 3};
  for (int asym = 0; asym < 2; asym++) for (double x : SP) for (int k = 0; k < NIN; k++) for (int st = 1; st < 5; st++) {
    if (in_asym(k) && !asym) continue;
    if (!c.next()) continue;
    Vmec v = make_vmec(5, asym, 2, 3, 1, 2, 1, true, 3); const Eq& e = v.e;
    for (int j = 1; j < e.rows(k); j++) { int m = in_nyq(k) ? e.xmq[j] : e.xm[j]; bool half = in_nyq(k) || k == LMNS || k == LMNC; if (half || m % 2 == 0) v.full[k][j + e.rows(k) * st] = x; }
    if (k == 0) { v.iotas[st] = x; v.phip[st] = x; v.chi[st] = x; v.pres[st] = x; v.phi[st] = x; }
    std::ostringstream d; d << "value " << x << " in " << in_name[k] << " at " << st << " " << e.str(); c.begin(d.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    cdf::write("wout_sp.nc", wout_file(v, x));
    BX b; b.verbose = 0; try { b.read_wout("wout_sp.nc", true); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
    string m = read_check(v, x, b, true); if (!m.empty()) c.fail(m);
  }
  // a single entry of a profile, or a whole profile
  for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) for (int ns : {2, 3, 4, 7}) for (double x : {0.0, -0.0, -4.9e-324, 1e-300, -1e-20, 1.0, -1.0, 1e20, -1.7e308, double(INFINITY), double(-INFINITY), 9.96920996838687e+36}) for (int t = 0; t < 6; t++) for (int st = -1; st < ns; st++) {
    if (t == 5 && st > -1) continue;
    if (t && t < 5 && !flux) continue;
    if (!c.next()) continue;
    Vmec v = make_vmec(ns, asym, 3, 2, 1, 2, 1, true, 13 + ns); vector<double>* q[] = {&v.iotas, &v.phip, &v.chi, &v.pres, &v.phi}; double asp = 4.5;
    if (t == 5) asp = x; else for (int j = 0; j < ns; j++) if (st < 0 || j == st) (*q[t])[j] = x;
    std::ostringstream d; d << "profile " << t << " entry " << st << " of " << ns << " is " << x << " asym=" << asym << " flux=" << flux; c.begin(d.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    cdf::write("wout_sp.nc", wout_file(v, asp));
    BX b; b.verbose = 0; try { b.read_wout("wout_sp.nc", flux); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
    string m = read_check(v, asp, b, flux); if (!m.empty()) c.fail(m);
  }
}

// an object with results of any size, without transforming
static void big_results(BX& b, int ns, int asym, int nfp, int mb, int nb, const vector<int>& sel, int flux, double val = NAN) {
  Vmec v = make_vmec(ns, asym, nfp, 1, 0, 0, 0, true, 7 + ns); prepare(b, v, {ns, asym, nfp, 1, 0, 1, 0, flux, 0}, sel, "big"); b.run();
  b.mboz = mb; b.nboz = nb; vector<int> xm, xn; mode_list(mb, nb, nfp, xm, xn); b.xm_b = toi(xm); b.xn_b = toi(xn); b.mnboz = xm.size();
  for (int k = 0; k < NOUT; k++) { if (k >= BMNS_B && !asym) continue; auto* m = out_ptr(b, k); m->resize(b.mnboz, b.ns_b); for (int i = 0; i < m->size(); i++) m->data()[i] = rnd(k, i, ns); if (!std::isnan(val)) for (int i = k % 3; i < m->size(); i += 3) m->data()[i] = val; }
}
static void c12_sizes(Ctx& c) {
  auto one = [&](int ns, int asym, int nfp, int mb, int nb, const vector<int>& sel, int flux, double val, const string& path, const string& d) {
    if (!c.next()) return;
    std::ostringstream o; o << d << " ns=" << ns << " asym=" << asym << " nfp=" << nfp << " mboz=" << mb << " nboz=" << nb << " surfaces " << sel.size() << " flux=" << flux << " file " << path.substr(0, 80); c.begin(o.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions += 2;
    Quiet q;
    try {
      BX a; big_results(a, ns, asym, nfp, mb, nb, sel, flux, val); vector<Exp> ex = boozmn_expect(a); a.write_boozmn(path);
      string m = boozmn_check(path, a, ex); if (!m.empty()) { c.fail(m); unlink(path.c_str()); return; }
      BX b; b.verbose = 0; dirty(b, ns % 5); b.read_boozmn(path); m = trip_cmp(a, b, flux); if (!m.empty()) c.fail(m);
      unlink(path.c_str());
    } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
  };
  auto all = [](int n) { vector<int> r; for (int j = 0; j < n; j++) r.push_back(j); return r; };
  for (int asym = 0; asym < 2; asym++) {
    for (int ns : {2, 9, 17, 33, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300, 513}) for (int sel = 0; sel < 4; sel++) { vector<int> s = all(ns - 1); if (sel == 1) std::reverse(s.begin(), s.end()); if (sel == 2) s = {ns - 2}; if (sel == 3) { vector<int> t; for (int j = 0; j < ns - 1; j += 1 + ns / 40) t.push_back(j); s = t; } one(ns, asym, 1 + ns % 4, 3, 2, s, ns % 2, NAN, "boozmn_big.nc", "many surfaces"); }
    for (int mb = 1; mb <= (c.thorough ? 128 : 72); mb++) for (int nb : {0, 1, 5, 20}) one(4, asym, 1 + mb % 5, mb, nb, {2, 0}, 1, NAN, "boozmn_big.nc", "many modes");
    for (int nb = 0; nb <= (c.thorough ? 200 : 130); nb++) for (int mb : {1, 2, 7}) one(4, asym, 1 + nb % 12, mb, nb, {1}, 0, NAN, "boozmn_big.nc", "many modes");
    for (int nfp = 1; nfp <= 100; nfp++) one(3, asym, nfp, 3, 3, {0, 1}, 1, NAN, "boozmn_big.nc", "field periods");
    static const double SP[] = {0, -0.0, 1e-300, -4.9e-324, 1e-20, -1e-12, 1e30, 1.7e308, INFINITY, -INFINITY, 9.96920996838687e+36, 0.1};      // among them the fill value of the format
    for (double x : SP) for (int flux = 0; flux < 2; flux++) one(5, asym, 3, 3, 2, {0, 3}, flux, x, "boozmn_big.nc", "values " + std::to_string(x));
    for (const string& p : {string("x"), string("name with spaces.nc"), string("./a.b.c"), string("no_extension"), string("boozmn_") + string(200, 'y') + ".nc", string("umlaut_\xc3\xa4.nc"), string("dir13/../dir13/x.nc"), string("percent%s%d.nc"), string("semi;colon'quote\".nc"), string("boozmn.txt"), string("upper.NC")}) { mkdir("dir13", 0777); one(4, asym, 2, 3, 1, {1, 2}, 1, NAN, p, "file name"); }
  }
}

// one entry of one array, or all of them, with any value
static void c12_values(Ctx& c) {
  static const double SP[] = {0, -0.0, -4.9e-324, 1e-300, -1e-20, 1, -1, 1e20, -1.7e308, INFINITY, -INFINITY, NAN, 9.96920996838687e+36};
  struct Sh { int ns, asym, nfp, mb, nb; vector<int> sel; };
  vector<Sh> shs = {{5, 0, 2, 2, 1, {0, 3}}, {5, 1, 2, 2, 1, {3, 0, 2}}, {3, 1, 1, 2, 0, {1}}, {4, 0, 5, 1, 1, {2, 1, 0}}};
  for (auto& h : shs) for (int flux = 0; flux < 2; flux++) for (int t = 0; t < 8 + NOUT; t++) {
    if (t >= 4 && t < 8 && !flux) continue;
    if (t >= 8 && t - 8 >= BMNS_B && !h.asym) continue;
    int mn = (2 * h.nb + 1) * (h.mb - 1) + h.nb + 1, len = t == 0 ? 1 : t < 4 ? h.ns - 1 : t < 8 ? h.ns : mn * (int)h.sel.size();
    for (double x : SP) for (int i = len > 1 ? -1 : 0; i < len; i++) {
      if (!c.next()) continue;
      static const char* nm[] = {"aspect", "iota", "G", "I", "phip", "chi", "pres", "phi"};
      std::ostringstream o; o << (t < 8 ? nm[t] : out_name[t - 8]) << " entry " << i << " is " << x << " ns=" << h.ns << " asym=" << h.asym << " mboz=" << h.mb << " nboz=" << h.nb << " surfaces " << h.sel.size() << " flux=" << flux; c.begin(o.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions += 2;
      Quiet q;
      try {
        BX a; big_results(a, h.ns, h.asym, h.nfp, h.mb, h.nb, h.sel, flux);
        auto put = [&](booz_xform::Vector& v) { for (int j = 0; j < v.size(); j++) if (i < 0 || i == j) v[j] = x; };
        if (t == 0) a.aspect = x; else if (t == 1) put(a.iota); else if (t == 2) put(a.Boozer_G_all); else if (t == 3) put(a.Boozer_I_all); else if (t == 4) put(a.phip); else if (t == 5) put(a.chi); else if (t == 6) put(a.pres); else if (t == 7) put(a.phi);
        else { auto* m = out_ptr(a, t - 8); for (int j = 0; j < m->size(); j++) if (i < 0 || i == j) m->data()[j] = x; }
        for (int j = 0; j < a.ns_b; j++) { a.Boozer_G[j] = a.Boozer_G_all[a.compute_surfs[j]]; a.Boozer_I[j] = a.Boozer_I_all[a.compute_surfs[j]]; }
        if (flux) a.toroidal_flux = a.phi[a.ns_in];
        vector<Exp> ex = boozmn_expect(a); a.write_boozmn("boozmn_v.nc");
        string m = boozmn_check("boozmn_v.nc", a, ex); if (!m.empty()) { c.fail(m); continue; }
        BX b; b.verbose = 0; dirty(b, (i + 1) % 5); b.read_boozmn("boozmn_v.nc"); m = trip_cmp(a, b, flux); if (!m.empty()) { c.fail(m); continue; }
        b.write_boozmn("boozmn_w.nc"); m = same_contents("boozmn_v.nc", "boozmn_w.nc"); if (!m.empty()) c.fail("second generation: " + m);
      } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
    }
  }
}

// every subset of the tables, or of the profiles, emptied, made tiny or constant
static void c10_sets(Ctx& c) {
  for (int asym = 0; asym < 2; asym++) for (int what = 0; what < 2; what++) for (int t = 0; t < 4; t++) {
    vector<int> ks; if (what) ks = {0, 1, 2, 3, 4}; else for (int k = 0; k < NIN; k++) if (asym || !in_asym(k)) ks.push_back(k);
    for (int set = 1; set < 1 << ks.size(); set++) for (int flux = 0; flux < (what ? 2 : 1); flux++) {
      if (!c.next()) continue;
      Vmec v = make_vmec(4, asym, 2, 2, 1, 2, 1, true, 21); vector<double>* q[] = {&v.iotas, &v.phip, &v.chi, &v.pres, &v.phi};
      for (size_t i = 0; i < ks.size(); i++) if (set >> i & 1) for (double& x : what ? *q[ks[i]] : v.full[ks[i]]) x = t == 0 ? 0 : t == 1 ? 1e-14 * x : t == 2 ? -1e14 * x : -x;
      std::ostringstream d; d << (what ? "profiles" : "tables") << " in set " << set << (t == 0 ? " are zero" : t == 1 ? " are tiny" : t == 2 ? " are huge" : " have the other sign") << " asym=" << asym << " flux=" << flux; c.begin(d.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
      cdf::write("wout_st.nc", wout_file(v, 5.5));
      BX b; b.verbose = 0; try { b.read_wout("wout_st.nc", what ? flux : 1); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
      string m = read_check(v, 5.5, b, what ? flux : 1); if (!m.empty()) c.fail(m);
    }
  }
}
static void c12_sets(Ctx& c) {
  for (int asym = 0; asym < 2; asym++) for (int what = 0; what < 2; what++) for (int flux = 0; flux < 2; flux++) for (int t = 0; t < 5; t++) {
    int n = what ? 8 : asym ? NOUT : BMNS_B;
    for (int set = 1; set < 1 << n; set++) {
      if (!c.next()) continue;
      std::ostringstream d; d << (what ? "profiles" : "arrays") << " in set " << set << (t == 0 ? " are zero" : t == 1 ? " are tiny" : t == 2 ? " are one" : t == 3 ? " have the other sign" : " repeat the first") << " asym=" << asym << " flux=" << flux; c.begin(d.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions += 2;
      Quiet q;
      try {
        BX a; big_results(a, 4, asym, 2, 2, 1, {2, 0}, flux);
        auto put = [&](double* x, i64 len, double first) { for (i64 j = 0; j < len; j++) x[j] = t == 0 ? 0 : t == 1 ? 1e-14 * x[j] : t == 2 ? 1 : t == 3 ? -x[j] : first; };
        if (what) { booz_xform::Vector* p[] = {&a.iota, &a.Boozer_G_all, &a.Boozer_I_all, &a.phip, &a.chi, &a.pres, &a.phi}; for (int i = 0; i < n; i++) if (set >> i & 1) { if (i == 7) put(&a.aspect, 1, 2); else if (p[i]->size()) put(p[i]->data(), p[i]->size(), (*p[i])[0]); } }
        else for (int i = 0; i < n; i++) if (set >> i & 1) { auto* m = out_ptr(a, i); if (t == 4) *m = *out_ptr(a, 0); else put(m->data(), m->size(), 0); }
        for (int j = 0; j < a.ns_b; j++) { a.Boozer_G[j] = a.Boozer_G_all[a.compute_surfs[j]]; a.Boozer_I[j] = a.Boozer_I_all[a.compute_surfs[j]]; }
        if (flux) a.toroidal_flux = a.phi[a.ns_in];
        vector<Exp> ex = boozmn_expect(a); a.write_boozmn("boozmn_st.nc");
        string m = boozmn_check("boozmn_st.nc", a, ex); if (!m.empty()) { c.fail(m); continue; }
        BX b; b.verbose = 0; dirty(b, set % 5); b.read_boozmn("boozmn_st.nc"); m = trip_cmp(a, b, flux); if (!m.empty()) c.fail(m);
      } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); }
    }
  }
}

int main(int argc, char** argv) {
  Ctx c; c.parse(argc, argv);
  typedef void (*fn)(Ctx&);
  std::vector<std::pair<string, fn>> t = {{"c10_read", c10_read}, {"c11_write", c11_write}, {"c12_trip", c12_trip}, {"c10_formats", c10_formats}, {"c12_sizes", c12_sizes}, {"c12_values", c12_values}, {"c10_sets", c10_sets}, {"c12_sets", c12_sets}, IO_MORE};
  for (auto& p : t) if (p.first == c.part) { p.second(c); if (c.out.empty()) printf("cases=%lld\n", c.idx + 1); return c.finish(); }
  fprintf(stderr, "unknown part %s\n", c.part.c_str());
  return 9;
}
