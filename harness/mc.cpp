// Bounded exhaustive exploration of the transformation against the executable
// specification in model.hpp. One subcommand per space.
#include "model.hpp"
#include "vmec.hpp"
#include <unistd.h>
#include <iostream>
using namespace vf;

static const double TOL = 2e-12;

static double g_worst = 0;

// run + compare with the reference; returns true if ok
static bool check_ref(Ctx& c, const Eq& e, double tol = TOL) {
  c.state(e.hash());
  Res r = ref_transform(e), x;
  try { x = impl(e); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); return false; }
  c.transitions += e.surfs.size();
  if (nontrivial(r)) c.nontrivial++;
  string s = cmp_all(x, r, tol * (1 + 0.1 * (e.mboz + e.nboz)), &g_worst);
  if (!s.empty()) { c.fail(s); return false; }
  return true;
}

// ---- C01 -------------------------------------------------------------------

static void c01_shapes(Ctx& c) {
  vector<int> nfps = {1, 2, 3, 5, 8}, mpols = {1, 2, 3}, ntors = {0, 1, 2}, mpolqs = {0, 1, 2, 3}, ntorqs = {0, 1, 2}, mbozs = {1, 2, 3, 5}, nbozs = {0, 1, 2};
  if (c.thorough) { nfps = {1, 2, 3, 4, 5, 8, 10}; mpols = {1, 2, 3, 4, 6}; ntors = {0, 1, 2, 3}; mpolqs = {0, 1, 2, 3, 5, 8}; ntorqs = {0, 1, 2, 3}; mbozs = {1, 2, 3, 4, 5, 8}; nbozs = {0, 1, 2, 3, 5}; }
  int ns = sizeof(SIGNS) / sizeof(SIGNS[0]);
  for (int asym = 0; asym < 2; asym++) for (int nfp : nfps) for (int mpol : mpols) for (int ntor : ntors) for (int mq : mpolqs) for (int nq : ntorqs)
    for (int mb : mbozs) for (int nb : nbozs) for (int sg = 0; sg < ns; sg++) {
      if (!c.next()) continue;
      Eq e = shape(asym, nfp, mpol, ntor, mq, nq, 3, mb, nb);
      std::ostringstream o; o << e.str() << " G=" << SIGNS[sg].G << " I=" << SIGNS[sg].I << " iota=" << SIGNS[sg].iota;
      c.begin(o.str());
      fill_generic(e, 11, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota);
      e.surfs = sg % 2 ? vector<int>{2, 0} : vector<int>{1, 2};
      check_ref(c, e);
    }
}

// Every single coefficient of every array on a zero (linear quantities) or trivial background.
static Eq impulse_base(int asym, int nfp, int mpol, int ntor, int mq, int nq, int mb, int nb, const Sign& sg) {
  Eq e = shape(asym, nfp, mpol, ntor, mq, nq, 1, mb, nb);
  e.alloc(); e.iota[0] = sg.iota; e.at(BMNC, 0, 0) = 2; e.at(BSUBU, 0, 0) = sg.I; e.at(BSUBV, 0, 0) = sg.G;
  return e;
}
static double unit(int k) { return (k == RMNC || k == ZMNS || k == RMNS || k == ZMNC) ? 1.0 : (k == BMNC || k == BMNS) ? 0.3 : 0.04; }

static void c01_impulses(Ctx& c) {
  int shapes[][7] = {{1, 3, 2, 3, 2, 4, 2}, {3, 3, 2, 3, 2, 4, 2}, {2, 4, 1, 4, 1, 3, 1}, {1, 6, 0, 7, 0, 5, 0}, {5, 2, 3, 2, 3, 3, 3}, {1, 2, 1, 5, 4, 6, 1}, {4, 5, 3, 2, 1, 2, 4}};
  double amps[] = {1, -1, 1e-13, 0.5};
  for (auto& sh : shapes) for (int asym = 0; asym < 2; asym++) for (int sg = 0; sg < 6; sg++) for (int k = 0; k < NIN; k++) {
    if (in_asym(k) && !asym) continue;
    Eq base = impulse_base(asym, sh[0], sh[1], sh[2], sh[3], sh[4], sh[5], sh[6], SIGNS[sg]);
    for (int j = 0; j < base.rows(k); j++) for (double amp : amps) {
      if (!c.next()) continue;
      Eq e = base;
      bool lin = (k == RMNC || k == ZMNS || k == RMNS || k == ZMNC);
      std::ostringstream o; o << e.str() << " sign " << sg << " impulse " << in_name[k] << "[" << j << "] m=" << (in_nyq(k) ? e.xmq[j] : e.xm[j]) << " n=" << (in_nyq(k) ? e.xnq[j] : e.xn[j]) << " amp " << amp;
      c.begin(o.str());
      e.at(k, j, 0) += amp * unit(k);
      // A distortion of the angles by one more mode, so that impulses of R, Z, B are mapped nontrivially.
      if (e.mn() > 1 && k != LMNS) e.at(LMNS, e.mn() - 1, 0) += 0.03;
      if (e.mnq() > 1 && k != BSUBU && e.xmq.back() != 0) e.at(BSUBU, e.mnq() - 1, 0) += 0.05 * SIGNS[sg].G;
      (void)lin;
      check_ref(c, e);
    }
  }
}

static void c01_pairs(Ctx& c) {
  // all pairs of coefficients of any two arrays, for one shape per symmetry
  for (int asym = 0; asym < 2; asym++) {
    Eq base = c.thorough ? impulse_base(asym, 2, 3, 1, 2, 1, 3, 2, SIGNS[0]) : impulse_base(asym, 2, 2, 1, 1, 1, 3, 1, SIGNS[4]);
    vector<std::pair<int, int>> co;
    for (int k = 0; k < NIN; k++) if (!in_asym(k) || asym) for (int j = 0; j < base.rows(k); j++) co.push_back({k, j});
    for (size_t a = 0; a < co.size(); a++) for (size_t b = a; b < co.size(); b++) for (int v = 0; v < 2; v++) {
      if (!c.next()) continue;
      Eq e = base;
      std::ostringstream o; o << e.str() << " pair " << in_name[co[a].first] << "[" << co[a].second << "] " << in_name[co[b].first] << "[" << co[b].second << "] variant " << v;
      c.begin(o.str());
      e.at(co[a].first, co[a].second, 0) += unit(co[a].first);
      e.at(co[b].first, co[b].second, 0) += (v ? -0.7 : 1.3) * unit(co[b].first);
      check_ref(c, e);
    }
  }
}

static void c01_ladder(Ctx& c) {
  auto go = [&](int asym, int nfp, int mpol, int ntor, int mq, int nq, int mb, int nb) {
    if (!c.next()) return;
    Eq e = shape(asym, nfp, mpol, ntor, mq, nq, 1, mb, nb);
    c.begin("ladder " + e.str());
    fill_generic(e, 5, 1.7, -0.2, 0.9, 0.03);
    check_ref(c, e);
  };
  int M = c.thorough ? 72 : 40, N = c.thorough ? 40 : 20;
  for (int asym = 0; asym < 2; asym++) {
    for (int mb = 1; mb <= M; mb++) { go(asym, 2, 3, 1, 4, 1, mb, 0); go(asym, 2, 3, 1, 4, 1, mb, 1); if (mb <= 24 || c.thorough) go(asym, 3, 3, 1, 4, 1, mb, 4); }
    for (int nb = 0; nb <= N; nb++) { go(asym, 2, 2, 2, 2, 2, 1, nb); go(asym, 5, 2, 2, 2, 2, 3, nb); }
    for (int mp = 1; mp <= (c.thorough ? 40 : 24); mp++) { go(asym, 1, mp, 1, 2, 1, 6, 1); go(asym, 1, 2, 1, mp, 1, 6, 1); go(asym, 2, mp, 0, mp + 2, 0, 4, 0); }
    for (int nt = 0; nt <= (c.thorough ? 24 : 14); nt++) { go(asym, 3, 2, nt, 2, 1, 3, 3); go(asym, 3, 2, 1, 2, nt, 3, 3); go(asym, 1, 3, nt, 4, nt + 2, 5, 2); }
    for (int n = 1; n <= (c.thorough ? 160 : 110); n++) { go(asym, 1 + n % 3, 1, n, 1, n, 1, n); go(asym, 2, n, 0, n, 0, n, 0); if (n % 4 == 0) { go(asym, 1, 2, 1, 1, n, 2, n); go(asym, 1, n, 1, n, 1, n / 2, 1); go(asym, 2, 1, n, 1, n, 2, 5); } }
    for (int nfp = 1; nfp <= 40; nfp++) { go(asym, nfp, 2, 2, 2, 2, 3, 2); go(asym, nfp, 3, 1, 4, 2, 2, 1); go(asym, nfp, 2, 0, 2, 0, 3, 1); }
    for (int mb = 1; mb <= 7; mb++) for (int nb = 0; nb <= 6; nb++) for (int nfp : {1, 2, 4, 7}) go(asym, nfp, 3, 2, 4, 3, mb, nb);
  }
}

// Stored equilibria of the project.
static const char* CONFIGS[] = {"circular_tokamak", "up_down_asymmetric_tokamak", "li383_1.4m", "LandremanSenguptaPlunk_section5p3"};
static string wout(const char* c) { return string("/repo/tests/test_files/wout_") + c + ".nc"; }

static void c01_real(Ctx& c) {
  for (int q = 0; q < 4; q++) {
    BX b; b.verbose = 0; b.read_wout(wout(CONFIGS[q]));
    Eq e0 = get_inputs(b);
    for (int js = 0; js < e0.ns; js++) for (int mb : {1, 4, 13, 24}) for (int nb : {0, 1, 5}) {
      if ((e0.ntorq == 0) && nb > 1) continue;
      if (!c.next()) continue;
      Eq e = e0; e.surfs = {js}; e.mboz = mb; e.nboz = nb;
      c.begin(string(CONFIGS[q]) + " js=" + std::to_string(js) + " " + e.str());
      check_ref(c, e, 5e-12);
    }
  }
}

#include "mc_more.inc"

int main(int argc, char** argv) {
  Ctx c; c.parse(argc, argv);
  typedef void (*fn)(Ctx&);
  std::vector<std::pair<string, fn>> t = {
    {"c01_shapes", c01_shapes}, {"c01_impulses", c01_impulses}, {"c01_pairs", c01_pairs}, {"c01_ladder", c01_ladder}, {"c01_real", c01_real},
    MC_MORE
  };
  for (auto& p : t) if (p.first == c.part) { p.second(c); if (c.out.empty()) printf("worst=%g cases=%lld\n", g_worst, c.idx + 1); return c.finish(); }
  fprintf(stderr, "unknown part %s\n", c.part.c_str());
  return 9;
}
