// C02, C03, C04, C05, C09, C19, C20

static string desc_of(const Eq& e, const string& x) { return x + " " + e.str(); }

static bool run_impl(Ctx& c, const Eq& e, Res& x) {
  try { x = impl(e); c.transitions += e.surfs.size(); return true; }
  catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); return false; }
}

#include "spell.hpp"

// ---- C01: spellings, selections, numbers of surfaces ----
static void c01_special(Ctx& c) {
  int nsig = sizeof(SIGNS) / sizeof(SIGNS[0]);
  int S[][7] = {{1, 2, 1, 1, 1, 3, 1}, {3, 2, 2, 2, 2, 3, 2}, {2, 4, 0, 4, 0, 5, 0}, {5, 1, 2, 3, 2, 2, 3}};
  for (int asym = 0; asym < 2; asym++) for (auto& q : S) for (int sg = 0; sg < nsig; sg++) for (int sp = 0; sp < NSPELL; sp++) for (int sel = 0; sel < 7; sel++) for (int seed = 0; seed < (c.thorough ? 20 : 3); seed++) {
    if (!c.next()) continue;
    int ns = sel == 5 ? 40 : sel == 6 ? 101 : 4;
    Eq e = shape(asym, q[0], q[1], q[2], q[3], q[4], ns, q[5], q[6]);
    std::ostringstream o; o << spell_name[sp] << " selection " << sel << " sign " << sg << " seed " << seed << " " << e.str(); c.begin(o.str());
    fill_generic(e, 400 + seed, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota / (1 + 0.1 * ns));
    e = respell(e, sp);
    if (sel == 0) e.surfs = {0, 1, 2, 3}; if (sel == 1) e.surfs = {3, 1, 0}; if (sel == 2) e.surfs = {2, 2, 2}; if (sel == 3) e.surfs = {}; if (sel == 4) e.surfs = {3};
    if (sel == 5) e.surfs = {0, 39, 20, 19}; if (sel == 6) e.surfs = {100, 7, 64};
    check_ref(c, e);
  }
}

// ---- C01: every subset of the input tables reduced to part of its modes, on one surface or on both ----
static void c01_sets(Ctx& c) {
  static const char* what[] = {"vanish", "have only the constant", "have no m=0 modes", "have only n=0 modes", "have only m=0 modes", "are smaller by 1e-6"};
  int S[][6] = {{3, 2, 1, 2, 1, 3}, {1, 3, 0, 2, 0, 4}, {2, 1, 2, 1, 2, 2}};
  for (int asym = 0; asym < 2; asym++) for (auto& q : S) for (int t = 0; t < 6; t++) for (int on = 0; on < 2; on++) for (int set = 1; set < 1 << (asym ? NIN : NIN / 2); set++) {
    if (!c.next()) continue;
    Eq e = shape(asym, q[0], q[1], q[2], q[3], q[4], 2, q[5], q[4] + (q[4] > 0));
    std::ostringstream o; o << "tables"; for (int k = 0, i = 0; k < NIN; k++) if (!in_asym(k) || asym) { if (set >> i++ & 1) o << ' ' << in_name[k]; } o << ' ' << what[t] << (on ? " on one surface " : " ") << e.str(); c.begin(o.str());
    fill_generic(e, 450 + t);
    for (int k = 0, i = 0; k < NIN; k++) if (!in_asym(k) || asym) if (set >> i++ & 1) for (int j = 0; j < e.rows(k); j++) for (int s = on; s < 2; s++) {
      int m = in_nyq(k) ? e.xmq[j] : e.xm[j], n = in_nyq(k) ? e.xnq[j] : e.xn[j]; bool c0 = m == 0 && n == 0;
      if (c0 && (k == BMNC || k == BSUBV)) continue;
      double f = t == 0 ? 0 : t == 1 ? c0 : t == 2 ? m > 0 : t == 3 ? n == 0 : t == 4 ? m == 0 : 1e-6;
      e.at(k, j, s) *= f;
    }
    e.surfs = set % 2 ? vector<int>{0, 1} : vector<int>{1, 0};
    check_ref(c, e);
  }
}

// ---- C02 -------------------------------------------------------------------

// make the covariant components the gradient of a potential plus (I, G)
static void make_curl_free(Eq& e) {
  for (int s = 0; s < e.ns; s++) for (int j = 0; j < e.mnq(); j++) {
    int m = e.xmq[j], n = e.xnq[j];
    if (m == 0 && n == 0) continue;
    if (m == 0) { e.at(BSUBU, j, s) = 0; if (e.asym) e.at(BSUBUS, j, s) = 0; }
    else { e.at(BSUBV, j, s) = -(double)n / m * e.at(BSUBU, j, s); if (e.asym) e.at(BSUBVS, j, s) = -(double)n / m * e.at(BSUBUS, j, s); }
  }
}

struct Series { const Res& r; int col; bool asym; 
  // value at Boozer angles: kc with cosine array, ks with sine array (-1: none)
  double operator()(int kc, int ks, double t, double z) const {
    double v = 0;
    for (int j = 0; j < r.mnboz; j++) { double x = r.xm[j] * t - r.xn[j] * z; if (kc >= 0 && r.cols[kc]) v += r.at(kc, j, col) * std::cos(x); if (ks >= 0 && r.cols[ks]) v += r.at(ks, j, col) * std::sin(x); }
    return v;
  } };

static void series_at(const Eq& e, int kc, int ks, int js, double t, double z, double& v) {
  v = 0; int kk = kc >= 0 ? kc : ks; bool nyq = in_nyq(kk);
  for (int j = 0; j < e.rows(kk); j++) { double x = (nyq ? e.xmq[j] : e.xm[j]) * t - (nyq ? e.xnq[j] : e.xn[j]) * z; if (kc >= 0 && !e.a[kc].empty()) v += e.at(kc, j, js) * std::cos(x); if (ks >= 0 && !e.a[ks].empty()) v += e.at(ks, j, js) * std::sin(x); }
}

// Boozer angles of the point (t, z) of the original angles, from the output nu only
static bool boozer_angles(const Eq& e, const Series& S, int js, double t, double z, double& tB, double& zB) {
  double lam; series_at(e, LMNC, LMNS, js, t, z, lam);
  tB = t + lam; zB = z;
  for (int it = 0; it < 200; it++) {
    double nu = S(NUMNC_B, NUMNS_B, tB, zB), t2 = t + lam + e.iota[js] * nu, z2 = z + nu, d = std::fabs(t2 - tB) + std::fabs(z2 - zB);
    tB = t2; zB = z2;
    if (d < 1e-15) return true;
    if (it > 60 && d < 1e-13) return true;
  }
  return false;
}

static void c02_judge(Ctx& c, const Eq& e, double tol) {
      bool asym = e.asym; int nfp = e.nfp;
      Res x;
      if (!run_impl(c, e, x)) return;
      c.nontrivial++;
      for (int col = 0; col < 2; col++) {
        int js = e.surfs[col];
        double G = e.at(BSUBV, 0, js), I = e.at(BSUBU, 0, js), iota = e.iota[js];
        if (x.G[col] != G || x.I[col] != I || x.Gall[js] != G || x.Iall[js] != I) { c.fail("G or I is not the covariant average"); break; }
        Series S{x, col, (bool)asym};
        bool bad = false;
        for (int p = 0; p < 4 && !bad; p++) for (int q = 0; q < 3 && !bad; q++) {
          double t = 0.3 + 1.7 * p + 0.4 * q, z = 0.21 + 1.9 * q + 0.3 * p, tB, zB;
          if (!boozer_angles(e, S, js, t, z, tB, zB)) { c.fail("Boozer angles do not converge"); bad = true; break; }
          double B, R, Z, lam; series_at(e, BMNC, BMNS, js, t, z, B); series_at(e, RMNC, RMNS, js, t, z, R); series_at(e, ZMNC, ZMNS, js, t, z, Z);
          double Bo = S(BMNC_B, BMNS_B, tB, zB), Ro = S(RMNC_B, RMNS_B, tB, zB), Zo = S(ZMNC_B, ZMNS_B, tB, zB), Jo = S(GMNC_B, GMNS_B, tB, zB), GI = G + iota * I;
          double Bt, Bz; series_at(e, BSUBU, BSUBUS, js, t, z, Bt); series_at(e, BSUBV, BSUBVS, js, t, z, Bz);
          auto cmp = [&](const char* nm, double a, double b, double sc) { if (!(std::fabs(a - b) <= tol * sc)) { std::ostringstream w; w.precision(15); w << nm << " at theta=" << t << " zeta=" << z << " column " << col << ": " << a << " expected " << b; c.fail(w.str()); bad = true; } g_worst = std::max(g_worst, std::fabs(a - b) / sc); };
          cmp("|B|", Bo, B, 2); if (bad) break;
          cmp("R", Ro, R, 3); if (bad) break;
          cmp("Z", Zo, Z, 3); if (bad) break;
          cmp("B^2*Jacobian", B * B * Jo, GI, std::fabs(GI)); if (bad) break;
          // d(theta_B), d(zeta_B) by central differences
          double h = 3e-4, d[2][2];
          for (int dir = 0; dir < 2 && !bad; dir++) {
            double v[4][2]; double st[4] = {-2, -1, 1, 2};
            for (int k = 0; k < 4; k++) if (!boozer_angles(e, S, js, t + (dir == 0) * st[k] * h, z + (dir == 1) * st[k] * h, v[k][0], v[k][1])) { c.fail("Boozer angles do not converge"); bad = true; break; }
            for (int a = 0; a < 2; a++) d[dir][a] = (v[0][a] - 8 * v[1][a] + 8 * v[2][a] - v[3][a]) / (12 * h);
          }
          if (bad) break;
          cmp("B dot dr/dtheta", I * d[0][0] + G * d[0][1], Bt, 5 * (std::fabs(G) + std::fabs(I))); if (bad) break;
          cmp("B dot dr/dzeta", I * d[1][0] + G * d[1][1], Bz, 5 * (std::fabs(G) + std::fabs(I)) * nfp); if (bad) break;
        }
        if (bad) break;
      }
}

static void c02_points(Ctx& c) {
  const double tol = 1e-5;
  int nsig = sizeof(SIGNS) / sizeof(SIGNS[0]);
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 2, 5}) for (int mpol : {1, 2, 3}) for (int ntor : {0, 1}) for (int mq : {1, 3}) for (int nq : {0, 2})
    for (int sg = 0; sg < nsig; sg++) for (int seed = 0; seed < (c.thorough ? 12 : 2); seed++) for (int sp = 0; sp < NSPELL; sp++) {
      if (!c.thorough && sp && (sp + seed + sg + mpol + mq) % 3) continue;
      if (!c.next()) continue;
      bool axi = ntor == 0 && nq == 0;
      Eq e = shape(asym, nfp, mpol, ntor, mq, nq, 2, 14, axi ? 0 : 9);
      std::ostringstream o; o << "pointwise " << e.str() << " sign " << sg << " seed " << seed << ", " << spell_name[sp];
      c.begin(o.str());
      fill_generic(e, 31 + seed, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota, (sg == 9 ? 0.006 : 0.02) / (1 + nfp * (axi ? 0 : 0.3)));
      for (int j = 1; j < e.mnq(); j++) for (int s = 0; s < 2; s++) { e.at(BMNC, j, s) *= 0.3; if (asym) e.at(BMNS, j, s) *= 0.3; }
      if (asym) for (int s = 0; s < 2; s++) { e.at(BSUBUS, 0, s) = 0; e.at(BSUBVS, 0, s) = 0; }
      make_curl_free(e);
      e = respell(e, sp);
      e.surfs = {1, 0};
      c.state(e.hash());
      c02_judge(c, e, tol);
    }
  // angle differences larger than pi
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int mpol : {1, 2}) for (int mq : {1, 2}) for (int sg = 0; sg < 12; sg++) for (double amp : {2.5, -3.3, 5.0, 20.0}) for (int seed = 0; seed < (c.thorough ? 8 : 2); seed++) for (int pos = 0; pos < (asym ? 2 : 1); pos++) {
    if (!c.next()) continue;
    double G = sg % 2 ? -2 : 1.5, I = sg / 2 % 2 ? 0.3 : 0, io = (sg / 4 - 1) * 0.3 / (2 + std::fabs(amp));
    Eq e = shape(asym, nfp, mpol, 0, mq, 0, 2, 20, 0);
    std::ostringstream o; o << "angle difference " << amp << (pos ? " cosine" : " sine") << " G=" << G << " I=" << I << " iota=" << io << " " << e.str() << " seed " << seed; c.begin(o.str());
    fill_generic(e, 61 + seed, G, I, io, 0.02);
    for (int j = 1; j < e.mnq(); j++) for (int s = 0; s < 2; s++) { e.at(BMNC, j, s) *= 0.3; if (asym) e.at(BMNS, j, s) *= 0.3; }
    for (int s = 0; s < 2; s++) { e.iota[s] = io; e.at(pos ? BSUBUS : BSUBU, 1, s) = (G + io * e.at(BSUBU, 0, s)) * amp * (s ? 1 : -0.7); if (asym) e.at(BSUBUS, 0, s) = e.at(BSUBVS, 0, s) = 0; }
    make_curl_free(e);
    e.surfs = {1, 0}; c.state(e.hash());
    c02_judge(c, e, tol);
  }
}

// G, I on selected and on all surfaces, Jacobian amplitudes, for every shape (exact part)
// One mode of lambda or of the covariant field, of every mode number up to high ones, and large iota
static void c02_modes(Ctx& c) {
  double io[] = {0.4, -0.7, 3.5, -6, 12.5, 1, -1, 2.2};
  int M = c.thorough ? 48 : 28, N = c.thorough ? 24 : 14;
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int kind = 0; kind < (asym ? 4 : 2); kind++) for (int part = 0; part < 4; part++) for (int x = 1; x <= (part ? N : M); x++) {
    if (!c.next()) continue;
    int m = part == 0 ? x : part == 1 ? 0 : 1, n = part == 0 ? 0 : part == 3 ? -x : x;
    Eq e = shape(asym, nfp, std::max(m, 1) + 1, std::abs(n), std::max(m, 1), std::abs(n), 2, part == 0 ? 6 * m + 6 : 7, part == 0 ? 0 : 6 * x + 2);
    double iota = io[(x + kind + part + nfp) % 8], G = x % 3 ? 2 : -1.5, I = x % 2 ? 0.3 : -0.2, GI;
    fill_generic(e, 71 + x, G, I, iota, 0.02);
    for (int k = 0; k < NIN; k++) if (!e.a[k].empty()) for (int j = 0; j < e.rows(k); j++) { int a = in_nyq(k) ? e.xmq[j] : e.xm[j], b = in_nyq(k) ? e.xnq[j] : e.xn[j]; bool keep = (a == 0 && b == 0) || (a == 1 && b == 0 && k != BSUBU && k != BSUBV && k != LMNS && k != BSUBUS && k != BSUBVS && k != LMNC); for (int s = 0; s < 2; s++) { if (!keep) e.at(k, j, s) = 0; else if (a == 0 && b == 0 && (k == BSUBUS || k == BSUBVS || k == LMNC)) e.at(k, j, s) = 0; } }
    bool nyq = kind % 2; auto& xm = nyq ? e.xmq : e.xm; auto& xn = nyq ? e.xnq : e.xn; int at = -1;
    for (size_t j = 0; j < xm.size(); j++) if (xm[j] == m && xn[j] == n * nfp) at = j;
    std::ostringstream o; o << "single mode (" << m << "," << n * nfp << ") of " << (nyq ? "the covariant field" : "lambda") << (kind > 1 ? ", other parity" : "") << " iota=" << iota << " " << e.str(); c.begin(o.str());
    if (at < 0) { c.fail("no such mode"); continue; }
    for (int s = 0; s < 2; s++) {
      e.iota[s] = iota * (s ? -1 : 1); GI = e.at(BSUBV, 0, s) + e.iota[s] * e.at(BSUBU, 0, s);
      double amp = (s ? 0.06 : -0.08) / std::max(m, std::abs(n) * nfp) / (1 + (nyq ? 1 : std::fabs(e.at(BSUBU, 0, s) / GI)) * (1 + std::fabs(e.iota[s])));
      if (!nyq) e.at(kind > 1 ? LMNC : LMNS, at, s) = amp;
      else if (m) e.at(kind > 1 ? BSUBUS : BSUBU, at, s) = amp * GI * m;
      else e.at(kind > 1 ? BSUBVS : BSUBV, at, s) = amp * GI * n * nfp;
    }
    make_curl_free(e);
    e.surfs = {1, 0}; c.state(e.hash());
    c02_judge(c, e, 1e-5);
  }
}

static void c02_profiles(Ctx& c) {
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int ns = 1; ns <= 6; ns++) for (int first = 0; first < ns; first++) for (int cnt = 0; cnt <= 3; cnt++) for (int mq = 0; mq <= 2; mq++) for (int nq = 0; nq <= 2; nq++) for (int v = 0; v < 3; v++) {
    if (!c.next()) continue;
    Eq e = shape(asym, nfp, 2, 1, mq, nq, ns, 2, 1);
    fill_generic(e, 3 + v, v == 1 ? -2 : 1.5, v == 2 ? -0.4 : 0.3, 0.6);
    if (v == 2) for (int j = 0; j < ns; j++) e.at(BSUBU, 0, j) = 0;
    e.surfs.clear(); for (int q = 0; q < cnt; q++) e.surfs.push_back((first + 2 * q) % ns);
    c.begin(desc_of(e, "profiles first " + std::to_string(first)));
    check_ref(c, e);
  }
}

// ---- C03 -------------------------------------------------------------------

static void c03_fixed(Ctx& c) {
  int nsig = sizeof(SIGNS) / sizeof(SIGNS[0]);
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 2, 3, 7}) for (int mpol = 1; mpol <= 3; mpol++) for (int ntor = 0; ntor <= 2; ntor++) for (int mq = 0; mq <= 3; mq++) for (int nq = 0; nq <= 2; nq++)
    for (int mb = 1; mb <= 6; mb++) for (int nb = 0; nb <= 3; nb++) for (int sg = 0; sg < nsig; sg++) for (int sp = 0; sp < NSPELL; sp++) {
      if (!c.thorough && (sg >= 5 || sp) && (sg + sp + mb + nb + mpol + mq + nq) % 5) continue;
      if (nb == 0 && (ntor || nq)) continue;     // one toroidal grid point cannot represent toroidal modes
      if (ntor > 2 * nb || nq > 2 * nb || mpol - 1 > 2 * mb || mq > 2 * mb) continue;
      if (!c.next()) continue;
      Eq e = shape(asym, nfp, mpol, ntor, mq, nq, 2, mb, nb);
      std::ostringstream o; o << "fixed point " << e.str() << " sign " << sg << ", " << spell_name[sp];
      c.begin(o.str());
      fill_generic(e, 77, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota, 0);
      for (int s = 0; s < 2; s++) for (int j = 0; j < e.mnq(); j++) for (int k : {BSUBU, BSUBV, BSUBUS, BSUBVS}) if (!e.a[k].empty() && !(j == 0 && k <= BSUBV)) e.at(k, j, s) = 0;
      for (auto& v : e.a[LMNS]) v = 0;
      for (auto& v : e.a[LMNC]) v = 0;
      Eq plain = e;
      e = respell(e, sp);
      e.surfs = {1, 0};
      c.state(e.hash());
      Res x; if (!run_impl(c, e, x)) continue;
      c.nontrivial++;
      // expected: the input spectra, padded or truncated
      static const int src[NOUT] = {BMNC, RMNC, ZMNS, -1, -2, BMNS, RMNS, ZMNC, -1, -2};
      bool bad = false;
      for (int k = 0; k < NOUT && !bad; k++) for (int b = 0; b < x.cols[k] && !bad; b++) for (int j = 0; j < x.rows[k] && !bad; j++) {
        if (src[k] == -2) continue;
        double want = 0;
        if (src[k] >= 0) {
          auto& lm = in_nyq(src[k]) ? plain.xmq : plain.xm; auto& ln = in_nyq(src[k]) ? plain.xnq : plain.xn;
          for (size_t q = 0; q < lm.size(); q++) if (lm[q] == x.xm[j] && ln[q] == x.xn[j]) want += plain.at(src[k], q, e.surfs[b]);
          bool sine = k == ZMNS_B || k == BMNS_B || k == RMNS_B;
          if (sine && x.xm[j] == 0 && x.xn[j] == 0) want = 0;
        }
        double got = x.at(k, j, b);
        if (!(std::fabs(got - want) <= 2e-13 * 4)) { std::ostringstream w; w.precision(17); w << out_name[k] << "(m=" << x.xm[j] << ",n=" << x.xn[j] << ") column " << b << " = " << got << " expected " << want; c.fail(w.str()); bad = true; }
      }
      if (bad) continue;
      check_ref(c, e);
    }
}

// Reparametrised descriptions of a field known in Boozer angles.
static void c03_reparam(Ctx& c) {
  int nsig = sizeof(SIGNS) / sizeof(SIGNS[0]);
  const int MB = 3, NB = 1;                      // spectra in Boozer angles: m <= 2, |n| <= 1
  struct F { double c[MB][2 * NB + 1], s[MB][2 * NB + 1]; double operator()(double t, double z, int nfp) const { double v = 0; for (int m = 0; m < MB; m++) for (int n = -NB; n <= NB; n++) { double x = m * t - n * nfp * z; v += c[m][n + NB] * std::cos(x) + s[m][n + NB] * std::sin(x); } return v; } };
  auto mk = [&](uint64_t seed, bool even, bool odd, double c00, double amp, bool axi) { F f; for (int m = 0; m < MB; m++) for (int n = -NB; n <= NB; n++) { bool keep = (m > 0 || n >= 0) && !(axi && n); f.c[m][n + NB] = keep && even ? amp * rnd(seed, m, n + 5, 1) : 0; f.s[m][n + NB] = keep && odd ? amp * rnd(seed, m, n + 5, 2) : 0; if (m == 0 && n == 0) { f.c[0][NB] = even ? c00 : f.c[0][NB]; f.s[0][NB] = 0; } } return f; };
  struct D { int m, n; double lam, nu; bool cosine; };
  vector<D> defs;
  for (int m = 0; m <= 3; m++) for (int n = -2; n <= 2; n++) { if (m == 0 && n <= 0) continue; for (int kind = 0; kind < 3; kind++) for (int cs = 0; cs < 2; cs++) for (int sign = -1; sign <= 1; sign += 2) { double a = 0.06 / (1 + m + std::abs(n)) * sign; defs.push_back({m, n, kind != 1 ? a : 0, kind != 0 ? 0.7 * a : 0, (bool)cs}); } }
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int sg = 0; sg < nsig; sg++) for (size_t d = 0; d < defs.size(); d++) {
    if (defs[d].cosine && !asym) continue;
    if (!c.next()) continue;
    const D& q = defs[d];
    bool axi = q.n == 0 && (d % 2);
    F b = mk(1, true, asym, 2, 0.2, axi), r = mk(2, true, asym, 3, 0.3, axi), z = mk(3, asym, true, 0.1, 0.3, axi);
    double nus = q.nu / nfp;
    const int NT = 64, NZ = axi ? 1 : 40, MQ = 20, NQ = axi ? 0 : 9;
    Eq e = shape(asym, nfp, MQ + 1, NQ, MQ, NQ, 1, 12, axi ? 0 : 6);
    std::ostringstream o; o << "reparam lambda/nu mode m=" << q.m << " n=" << q.n << (q.cosine ? " cos" : " sin") << " lambda " << q.lam << " nu " << nus << (axi ? " axisymmetric" : "") << " sign " << sg << " " << e.str();
    c.begin(o.str());
    e.alloc();
    double G = SIGNS[sg].G, I = SIGNS[sg].I, iota = SIGNS[sg].iota; e.iota[0] = iota;
    auto nu = [&](double t, double zz) { double x = q.m * t - q.n * nfp * zz; return nus * (q.cosine ? std::cos(x) : std::sin(x)); };
    auto lam = [&](double t, double zz) { double x = q.m * t - q.n * nfp * zz; return q.lam * (q.cosine ? std::cos(x) : std::sin(x)); };
    for (int j = 0; j < e.mn(); j++) if (e.xm[j] == q.m && e.xn[j] == q.n * nfp) { if (q.cosine) e.at(LMNC, j, 0) = q.lam; else e.at(LMNS, j, 0) = q.lam; }
    // w = (G + iota I) nu + I lambda
    double w = (G + iota * I) * nus + I * q.lam;
    for (int j = 0; j < e.mnq(); j++) if (e.xmq[j] == q.m && e.xnq[j] == q.n * nfp) { int n = q.n * nfp; if (q.cosine) { e.at(BSUBUS, j, 0) = -q.m * w; e.at(BSUBVS, j, 0) = n * w; } else { e.at(BSUBU, j, 0) = q.m * w; e.at(BSUBV, j, 0) = -n * w; } }
    e.at(BSUBU, 0, 0) = I; e.at(BSUBV, 0, 0) = G;
    // Fourier analysis of B, R, Z as functions of the original angles
    vector<double> gb(NT * NZ), gr(NT * NZ), gz(NT * NZ);
    for (int i = 0; i < NT; i++) for (int j = 0; j < NZ; j++) { double t = 2 * PI * i / NT, zz = 2 * PI * j / (NZ * nfp), zB = zz + nu(t, zz), tB = t + lam(t, zz) + iota * nu(t, zz); gb[i * NZ + j] = b(tB, zB, nfp); gr[i * NZ + j] = r(tB, zB, nfp); gz[i * NZ + j] = z(tB, zB, nfp); }
    vector<double> ct(NT), st(NT), cz(NZ), sz(NZ);
    for (int i = 0; i < NT; i++) { ct[i] = std::cos(2 * PI * i / NT); st[i] = std::sin(2 * PI * i / NT); }
    for (int j = 0; j < NZ; j++) { cz[j] = std::cos(2 * PI * j / NZ); sz[j] = std::sin(2 * PI * j / NZ); }
    for (int k = 0; k < e.mn(); k++) {
      int m = e.xm[k], n = e.xn[k] / nfp; double v[6] = {0};
      for (int i = 0; i < NT; i++) { int a = (m * i) % NT; for (int j = 0; j < NZ; j++) { int bz = (((n * j) % NZ) + NZ) % NZ; double C = ct[a] * cz[bz] + st[a] * sz[bz], Sx = st[a] * cz[bz] - ct[a] * sz[bz]; int p = i * NZ + j; v[0] += gb[p] * C; v[1] += gb[p] * Sx; v[2] += gr[p] * C; v[3] += gr[p] * Sx; v[4] += gz[p] * C; v[5] += gz[p] * Sx; } }
      double f = (m == 0 && n == 0 ? 1.0 : 2.0) / (NT * NZ);
      e.at(BMNC, k, 0) = f * v[0]; e.at(RMNC, k, 0) = f * v[2]; e.at(ZMNS, k, 0) = f * v[5];
      if (asym) { e.at(BMNS, k, 0) = f * v[1]; e.at(RMNS, k, 0) = f * v[3]; e.at(ZMNC, k, 0) = f * v[4]; }
    }
    c.state(e.hash());
    Res x; if (!run_impl(c, e, x)) continue;
    c.nontrivial++;
    bool bad = false;
    auto cmp = [&](int k, const F& f, bool sine, double sc) {
      for (int j = 0; j < x.rows[k] && !bad; j++) { int m = x.xm[j], n = x.xn[j] / nfp; double want = (m < MB && std::abs(n) <= NB) ? (sine ? f.s[m][n + NB] : f.c[m][n + NB]) : 0, got = x.at(k, j, 0); g_worst = std::max(g_worst, std::fabs(got - want)); if (!(std::fabs(got - want) <= 2e-7 * sc)) { std::ostringstream w2; w2.precision(15); w2 << out_name[k] << "(m=" << m << ",n=" << n << "*nfp)=" << got << " expected " << want; c.fail(w2.str()); bad = true; } }
    };
    cmp(BMNC_B, b, false, 2); cmp(RMNC_B, r, false, 3); cmp(ZMNS_B, z, true, 3);
    if (asym) { cmp(BMNS_B, b, true, 2); cmp(RMNS_B, r, true, 3); cmp(ZMNC_B, z, false, 3); }
  }
}

// ---- C04 -------------------------------------------------------------------

static int find_mode(const vector<int>& xm, const vector<int>& xn, int m, int n) { for (size_t j = 0; j < xm.size(); j++) if (xm[j] == m && xn[j] == n) return j; return -1; }

// rotate cosine/sine pairs of inputs by the phase of a shift of the origin: f'(t,z) = f(t+al, z+be)
static void shift_pair(Eq& e, int kc, int ks, double al, double be) {
  for (int s = 0; s < e.ns; s++) for (int j = 0; j < e.rows(kc < 0 ? ks : kc); j++) {
    bool q = in_nyq(kc < 0 ? ks : kc); double ph = (q ? e.xmq[j] : e.xm[j]) * al - (q ? e.xnq[j] : e.xn[j]) * be;
    double C = e.a[kc].empty() ? 0 : e.at(kc, j, s), S = e.a[ks].empty() ? 0 : e.at(ks, j, s), co = std::cos(ph), si = std::sin(ph);
    if (!e.a[kc].empty()) e.at(kc, j, s) = C * co + S * si;
    if (!e.a[ks].empty()) e.at(ks, j, s) = S * co - C * si;
  }
}
static void shift_res(Res& r, int kc, int ks, double al, double be) {
  for (int b = 0; b < r.ns_b; b++) for (int j = 0; j < r.mnboz; j++) {
    double ph = r.xm[j] * al - r.xn[j] * be, co = std::cos(ph), si = std::sin(ph);
    size_t i = j + (size_t)r.mnboz * b; double C = r.cols[kc] ? r.a[kc][i] : 0, S = r.cols[ks] ? r.a[ks][i] : 0;
    if (r.cols[kc]) r.a[kc][i] = C * co + S * si;
    if (r.cols[ks]) r.a[ks][i] = S * co - C * si;
  }
}

static void c04_sym(Ctx& c) {
  const double tol = 1e-11;
  enum { ASYM0, ZETASCALE, REFLECT, MIRROR, MIRROR_B, SHIFT, BSCALE, RZSCALE, NREL };
  const char* nm[] = {"asymmetric with zero antisymmetric part", "field period relabelling", "reflection", "mirror", "mirror with reversed field", "origin shift", "field scaling", "length scaling"};
  for (int rel = 0; rel < NREL; rel++) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 2, 5}) for (int mpol : {1, 2, 3}) for (int ntor : {0, 1, 2}) for (int mq : {0, 2, 3}) for (int nq : {0, 1, 2})
    for (int mb : {1, 2, 4}) for (int nb : {0, 1, 3}) for (int sg = 0; sg < 5; sg++) for (int var = 0; var < 4; var++) {
      if (rel == ASYM0 && (asym || var)) continue;
      if ((rel == REFLECT || rel == MIRROR || rel == MIRROR_B) && var) continue;
      if (rel == REFLECT && !asym) continue;
      if (nb == 0 && (ntor || nq) ) continue;
      if (!c.thorough && (nfp + mpol + ntor + mq + nq + mb + nb + var) % 3 != sg % 3) continue;
      if (!c.next()) continue;
      Eq e = shape(asym, nfp, mpol, ntor, mq, nq, 2, mb, nb);
      std::ostringstream o; o << nm[rel] << " variant " << var << " sign " << sg << " " << e.str();
      c.begin(o.str());
      fill_generic(e, 100 + var, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota);
      e.surfs = {0, 1};
      Eq f = e; Res want, got;
      if (!run_impl(c, e, want)) continue;
      c.nontrivial++;
      c.state(mix(e.hash() + rel * 7919 + var));
      { Res ref = ref_transform(e); for (int k = 0; k < NOUT; k++) want.scale[k] = ref.scale[k]; }
      switch (rel) {
      case ASYM0: {
        f.asym = true;
        for (int k = RMNS; k < NIN; k++) f.a[k].assign((size_t)f.rows(k) * f.ns, 0.0);
        for (int k = BMNS_B; k < NOUT; k++) { want.rows[k] = want.mnboz; want.cols[k] = want.ns_b; want.a[k].assign((size_t)want.mnboz * want.ns_b, 0.0); }
        break; }
      case ZETASCALE: {
        int kk = var + 2; f.nfp *= kk;
        for (auto& n : f.xn) n *= kk; for (auto& n : f.xnq) n *= kk; for (auto& i : f.iota) i *= kk;
        for (auto& v : f.a[BSUBV]) v *= kk; for (auto& v : f.a[BSUBVS]) v *= kk;
        for (auto& n : want.xn) n *= kk;
        for (int k : {NUMNS_B, NUMNC_B}) { for (auto& v : want.a[k]) v /= kk; for (auto& v : want.scale[k]) v /= kk; }
        for (int k : {GMNC_B, GMNS_B}) { for (auto& v : want.a[k]) v *= kk; for (auto& v : want.scale[k]) v *= kk; }
        for (auto& v : want.G) v *= kk; for (auto& v : want.Gall) v *= kk;
        break; }
      case REFLECT: {
        for (int k : {RMNS, ZMNC, LMNC, BMNS, BSUBUS, BSUBVS}) for (auto& v : f.a[k]) v = -v;
        for (int k : {BMNS_B, RMNS_B, ZMNC_B, NUMNC_B, GMNS_B}) for (auto& v : want.a[k]) v = -v;
        break; }
      case MIRROR: case MIRROR_B: {
        // zeta -> -zeta: (m, n) -> (m, -n); for m = 0 keep n >= 0 and flip the sine coefficients
        bool rev = rel == MIRROR_B;
        auto flip = [&](int k, double sgn) {
          bool sine = k == ZMNS || k == LMNS || k == RMNS || k == BMNS || k == BSUBUS || k == BSUBVS;
          if (f.a[k].empty()) return;
          auto& xm = in_nyq(k) ? e.xmq : e.xm; auto& xn = in_nyq(k) ? e.xnq : e.xn;
          for (int s = 0; s < e.ns; s++) for (size_t j = 0; j < xm.size(); j++) {
            if (xm[j] == 0) f.at(k, j, s) = (sine ? -1 : 1) * sgn * e.at(k, j, s);
            else f.at(k, find_mode(xm, xn, xm[j], -xn[j]), s) = sgn * e.at(k, j, s);
          } };
        for (int k : {RMNC, ZMNS, RMNS, ZMNC, BMNC, BMNS, LMNS, LMNC}) flip(k, 1);
        for (int k : {BSUBU, BSUBUS}) flip(k, rev ? -1 : 1);
        for (int k : {BSUBV, BSUBVS}) flip(k, rev ? 1 : -1);
        for (auto& i : f.iota) i = -i;
        Res w0 = want;
        auto flo = [&](int k, double sgn) { bool sine = k == ZMNS_B || k == NUMNS_B || k == BMNS_B || k == RMNS_B || k == GMNS_B;
          for (int b = 0; b < w0.cols[k]; b++) for (int j = 0; j < w0.mnboz; j++) { int q = w0.xm[j] == 0 ? j : find_mode(w0.xm, w0.xn, w0.xm[j], -w0.xn[j]); want.a[k][q + (size_t)w0.mnboz * b] = sgn * (w0.xm[j] == 0 && sine ? -1 : 1) * w0.at(k, j, b); } };
        for (int k : {BMNC_B, RMNC_B, ZMNS_B, BMNS_B, RMNS_B, ZMNC_B}) flo(k, 1);
        for (int k : {NUMNS_B, NUMNC_B}) flo(k, -1);
        for (int k : {GMNC_B, GMNS_B}) flo(k, rev ? 1 : -1);
        double sg2 = rev ? 1 : -1, si = rev ? -1 : 1;
        for (auto& v : want.G) v *= sg2; for (auto& v : want.Gall) v *= sg2; for (auto& v : want.I) v *= si; for (auto& v : want.Iall) v *= si;
        break; }
      case SHIFT: {
        int nt = 2 * (2 * mb + 1), nz = nb ? 2 * (2 * nb + 1) : 1;
        double al, be;
        if (asym) { al = 2 * PI * (var % 2 ? 1 + var : 0) / nt; be = nz > 1 ? 2 * PI * (var >= 1 ? 3 - (var == 3 ? 2 : 0) : 1) / (nz * nfp) : 0; }
        else { al = (var & 1) ? PI : 0; be = (var & 2) && nz > 1 ? PI / nfp : 0; }
        shift_pair(f, RMNC, RMNS, al, be); shift_pair(f, ZMNC, ZMNS, al, be); shift_pair(f, LMNC, LMNS, al, be); shift_pair(f, BMNC, BMNS, al, be);
        { Eq g = f; shift_pair(g, BSUBU, BSUBUS, al, be); shift_pair(g, BSUBV, BSUBVS, al, be); f = g; }
        // the sine coefficient of m=n=0 has no meaning
        for (int k : {RMNS, ZMNS, LMNS, BMNS, BSUBUS, BSUBVS}) if (!f.a[k].empty()) for (int s = 0; s < 2; s++) f.at(k, 0, s) = e.at(k, 0, s);
        shift_res(want, BMNC_B, BMNS_B, al, be); shift_res(want, RMNC_B, RMNS_B, al, be); shift_res(want, ZMNC_B, ZMNS_B, al, be); shift_res(want, NUMNC_B, NUMNS_B, al, be); shift_res(want, GMNC_B, GMNS_B, al, be);
        break; }
      case BSCALE: {
        double q[] = {-1, 1e-20, 1e15, 3};
        for (int k : {BMNC, BMNS, BSUBU, BSUBV, BSUBUS, BSUBVS}) for (auto& v : f.a[k]) v *= q[var];
        for (int k : {BMNC_B, BMNS_B}) { for (auto& v : want.a[k]) v *= q[var]; for (auto& v : want.scale[k]) v *= std::fabs(q[var]); }
        for (int k : {GMNC_B, GMNS_B}) { for (auto& v : want.a[k]) v /= q[var]; for (auto& v : want.scale[k]) v /= std::fabs(q[var]); }
        for (auto* v : {&want.G, &want.I, &want.Gall, &want.Iall}) for (auto& y : *v) y *= q[var];
        break; }
      case RZSCALE: {
        double q[] = {-1, 1e-18, 1e12, 0.37}, p[] = {1e-9, 2, -3, 1e20};
        for (int k : {RMNC, RMNS}) for (auto& v : f.a[k]) v *= q[var];
        for (int k : {ZMNC, ZMNS}) for (auto& v : f.a[k]) v *= p[var];
        for (int k : {RMNC_B, RMNS_B}) { for (auto& v : want.a[k]) v *= q[var]; for (auto& v : want.scale[k]) v *= std::fabs(q[var]); }
        for (int k : {ZMNC_B, ZMNS_B}) { for (auto& v : want.a[k]) v *= p[var]; for (auto& v : want.scale[k]) v *= std::fabs(p[var]); }
        break; }
      }
      if (!run_impl(c, f, got)) continue;
      // G and I are products here, so compare them to rounding only
      string s;
      for (auto pr : {std::make_pair(&got.G, &want.G), {&got.I, &want.I}, {&got.Gall, &want.Gall}, {&got.Iall, &want.Iall}}) {
        if (pr.first->size() != pr.second->size()) { s = "profile size differs"; break; }
        for (size_t i = 0; i < pr.first->size(); i++) if (std::fabs((*pr.first)[i] - (*pr.second)[i]) > 1e-14 * std::fabs((*pr.second)[i])) s = "G or I not mapped as prescribed";
        *pr.first = *pr.second;
      }
      if (s.empty()) s = cmp_all(got, want, tol, &g_worst);
      if (!s.empty()) { c.fail(s); continue; }
      check_ref(c, f);
    }
}

// ---- C05 -------------------------------------------------------------------

static void surf_data(Eq& e, int v) {
  fill_generic(e, 900 + v, 1.8, 0.25, 0.5);
  if (v == 1) for (auto& i : e.iota) i = 0.5;                                        // same iota everywhere
  if (v == 2) for (int k = 0; k < NIN; k++) if (!e.a[k].empty()) for (int j = 0; j < e.rows(k); j++) e.at(k, j, e.ns - 1) = e.at(k, j, 0);   // two surfaces equal except iota
  if (v == 3) for (int s = 0; s < e.ns; s++) { e.at(BSUBU, 0, s) = 0; e.at(BSUBV, 0, s) = 1.8; e.iota[s] = 0.5; if (s) for (int j = 1; j < e.mnq(); j++) { e.at(BSUBU, j, s) = e.at(BSUBU, j, 0); e.at(BSUBV, j, s) = e.at(BSUBV, j, 0); } }  // same field components, other shapes
  if (v == 4) for (int s = 0; s < e.ns; s++) if (s % 2) { e.iota[s] = -e.iota[s]; e.at(BSUBV, 0, s) *= -1; }
}

static void c05_seq(Ctx& c, const Eq& e0, const vector<Res>& alone, const vector<int>& seq, const string& d) {
  Eq e = e0; e.surfs = seq;
  std::ostringstream o; o << d << " selection";
  for (int s : seq) o << ' ' << s;
  o << ' ' << e.str();
  c.begin(o.str()); c.state(e.hash());
  Res x, w = alone[0];
  if (!run_impl(c, e, x)) return;
  c.nontrivial++;
  // assemble the expectation from the single-surface runs
  w.ns_b = seq.size(); w.G.clear(); w.I.clear(); w.s_b.clear();
  for (int k = 0; k < NOUT; k++) { bool on = w.rows[k] > 0; w.cols[k] = on ? seq.size() : 0; w.a[k].clear(); w.scale[k].clear(); }
  for (int s : seq) { const Res& a = alone[s]; w.G.push_back(a.G[0]); w.I.push_back(a.I[0]); w.s_b.push_back(a.s_b[0]); for (int k = 0; k < NOUT; k++) { w.a[k].insert(w.a[k].end(), a.a[k].begin(), a.a[k].end()); w.scale[k].push_back(a.scale[k].size() ? a.scale[k][0] : 0); } }
  string m = cmp_all(x, w, 1e-12, &g_worst);
  if (!m.empty()) c.fail(m);
}

static void c05_select(Ctx& c) {
  int shapes[][8] = {{0, 1, 2, 0, 2, 0, 3, 0}, {1, 1, 2, 0, 2, 0, 3, 0}, {0, 3, 2, 1, 3, 1, 2, 1}, {1, 3, 2, 1, 3, 1, 2, 1}, {1, 2, 1, 1, 0, 1, 1, 2}, {0, 5, 3, 2, 1, 0, 4, 2}};
  auto prep = [&](const Eq& e0, vector<Res>& alone) { alone.clear(); for (int s = 0; s < e0.ns; s++) { Eq e = e0; e.surfs = {s}; Res r = impl(e); Res ref = ref_transform(e); for (int k = 0; k < NOUT; k++) r.scale[k] = ref.scale[k]; string m = cmp_all(r, ref, TOL); if (!m.empty()) { c.next(); c.begin("single surface " + std::to_string(s) + " " + e.str()); c.idx = c.only >= 0 ? c.only : c.idx; c.fail(m); } alone.push_back(r); } };
  for (auto& sh : shapes) for (int v = 0; v < 5; v++) {
    // ns = 3: every sequence with repetition up to length 5 (thorough 6)
    {
      Eq e = shape(sh[0], sh[1], sh[2], sh[3], sh[4], sh[5], 3, sh[6], sh[7]); surf_data(e, v); vector<Res> al; prep(e, al);
      int L = c.thorough ? 9 : 7;
      for (int n = 0; n <= L; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 3; for (int code = 0; code < tot; code++) { if (!c.next()) continue; vector<int> q; int t = code; for (int i = 0; i < n; i++) { q.push_back(t % 3); t /= 3; } c05_seq(c, e, al, q, "data " + std::to_string(v)); } }
    }
    // ns = 5: every duplicate-free sequence (all subsets in all orders)
    {
      Eq e = shape(sh[0], sh[1], sh[2], sh[3], sh[4], sh[5], 5, sh[6], sh[7]); surf_data(e, v); vector<Res> al; prep(e, al);
      vector<int> q; std::function<void()> rec = [&]() { if (c.next()) c05_seq(c, e, al, q, "data " + std::to_string(v)); for (int s = 0; s < 5; s++) { if (std::find(q.begin(), q.end(), s) != q.end()) continue; q.push_back(s); rec(); q.pop_back(); } }; rec();
    }
    // many surfaces: every window, step and direction
    {
      int ns = c.thorough ? 64 : 30;
      Eq e = shape(sh[0], sh[1], sh[2], sh[3], sh[4], sh[5], ns, sh[6], sh[7]); surf_data(e, v); vector<Res> al; prep(e, al);
      for (int a = 0; a < ns; a++) for (int st = -ns + 1; st < ns; st++) { if (!c.next()) continue; vector<int> q; if (st == 0) q.assign(ns + 3, a); else for (int s = a; s >= 0 && s < ns; s += st) q.push_back(s); c05_seq(c, e, al, q, "data " + std::to_string(v)); }
    }
    // long selections with repetition
    {
      int ns = 11; Eq e = shape(sh[0], sh[1], sh[2], sh[3], sh[4], sh[5], ns, sh[6], sh[7]); surf_data(e, v); vector<Res> al; prep(e, al);
      for (int len : {31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300}) for (int mul = 0; mul < (c.thorough ? ns : 4); mul++) for (int how = 0; how < 2; how++) { if (!c.next()) continue; vector<int> q; for (int i = 0; i < len; i++) q.push_back(how ? (mul * (i / 3) + i * i) % ns : (mul * i + 4) % ns); c05_seq(c, e, al, q, "data " + std::to_string(v)); }
    }
    // not a number on a surface stays on that surface
    {
      Eq e = shape(sh[0], sh[1], sh[2], sh[3], sh[4], sh[5], 3, sh[6], sh[7]); surf_data(e, v); vector<Res> al; prep(e, al);
      for (int s = 0; s < 3; s++) for (int k = -1; k < NIN; k++) {
        if (k >= 0 && e.a[k].empty()) continue;
        if (k >= 0 && e.rows(k) < 2) continue;
        if (!c.next()) continue;
        Eq f = e; if (k < 0) f.iota[s] = NAN; else f.at(k, e.rows(k) - 1, s) = NAN;
        vector<int> q; for (int t = 0; t < 3; t++) if (t != s) q.push_back(t);
        q.insert(q.begin() + 1, s);
        f.surfs = q;
        c.begin("NaN in " + string(k < 0 ? "iota" : in_name[k]) + " on surface " + std::to_string(s) + " " + f.str()); c.state(mix(hash_str(c.desc) + v));
        Res x; if (!run_impl(c, f, x)) continue;
        for (int b = 0; b < 3; b++) if (q[b] != s) for (int o = 0; o < NOUT; o++) for (int j = 0; j < x.rows[o]; j++) if (!(std::fabs(x.at(o, j, b) - al[q[b]].at(o, j, 0)) <= 1e-12 * al[q[b]].scale[o][0])) { c.fail(string("surface ") + std::to_string(q[b]) + " is affected in " + out_name[o]); b = 3; o = NOUT; break; }
      }
    }
  }
}

// ---- C09 -------------------------------------------------------------------

static void c09_regrid(Ctx& c) {
  // every coefficient of every array at every radial point, alone
  for (int ns = 2; ns <= (c.thorough ? 14 : 9); ns++) for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) for (int sh = 0; sh < 4; sh++) {
    int S[][5] = {{1, 6, 0, 3, 0}, {3, 5, 2, 2, 1}, {2, 1, 1, 1, 2}, {1, 1, 0, 0, 0}};
    Vmec v0 = c09_shape(ns, asym, S[sh][0], S[sh][1], S[sh][2], S[sh][3], S[sh][4], flux);
    for (int k = 0; k < NIN; k++) for (int j = 0; j < (v0.full[k].empty() ? 0 : v0.e.rows(k)); j++) for (int s = 0; s < ns; s++) {
      bool odd_axis = s == 0 && !in_nyq(k) && k != LMNS && k != LMNC && v0.e.xm[j] % 2;     // must vanish in VMEC data
      if (odd_axis) continue;
      if (!c.next()) continue;
      Vmec v = v0; v.full[k][j + (size_t)v.e.rows(k) * s] = 1.25;
      c.begin("impulse " + string(in_name[k]) + "[" + std::to_string(j) + "] at radial point " + std::to_string(s) + " of " + std::to_string(ns) + (flux ? " flux " : " ") + v.e.str());
      c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
      BX b; string m = c09_apply(v, b); if (m.empty()) m = c09_compare(v, b);
      if (!m.empty()) c.fail(m);
    }
  }
  // dense data for every shape, verbose levels included; also the profiles
  for (int ns = 2; ns <= 12; ns++) for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) for (int nfp : {1, 4}) for (int mpol = 1; mpol <= 5; mpol++) for (int ntor = 0; ntor <= 3; ntor++) for (int mq = 0; mq <= 3; mq++) for (int nq = 0; nq <= 2; nq++) for (int seed = 0; seed < (c.thorough ? 20 : 5); seed++) {
    if (!c.next()) continue;
    Vmec v = c09_shape(ns, asym, nfp, mpol, ntor, mq, nq, flux);
    for (int k = 0; k < NIN; k++) for (size_t i = 0; i < v.full[k].size(); i++) { int j = i % v.e.rows(k), s = i / v.e.rows(k); bool z = s == 0 && !in_nyq(k) && v.e.xm[j] % 2; v.full[k][i] = z ? 0 : rnd(seed + 40, k, i, ns); }
    for (int j = 0; j < ns; j++) { v.iotas[j] = rnd(seed, 99, j); if (flux) { v.phip[j] = rnd(seed, 91, j); v.chi[j] = rnd(seed, 92, j); v.pres[j] = rnd(seed, 93, j); v.phi[j] = rnd(seed, 94, j); } }
    c.begin("dense ns=" + std::to_string(ns) + (flux ? " flux " : " ") + v.e.str()); c.state(mix(hash_str(c.desc) + seed)); c.nontrivial++; c.transitions++;
    BX b;
    // stale contents must not matter
    b.compute_surfs = toi({3, 1}); b.mboz = 3; b.nboz = 2; b.toroidal_flux = 5; b.phip = tov({1, 2, 3});
    string m = c09_apply(v, b); if (m.empty()) m = c09_compare(v, b);
    if (!m.empty()) c.fail(m);
  }
  // each size by itself over a long range
  int limit[] = {80, 40, 40, 30, 60, 60};
  for (int which = 0; which < 6; which++) for (int x = which == 0 ? 2 : which < 3 ? 1 : 0; x <= limit[which] * (c.thorough ? 2 : 1); x++) for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) {
    if (!c.next()) continue;
    int d[] = {6, 3, 3, 1, 3, 1}; d[which] = x;
    Vmec v = c09_shape(d[0], asym, d[1], d[2], d[3], d[4], d[5], flux);
    for (int k = 0; k < NIN; k++) for (size_t i = 0; i < v.full[k].size(); i++) { int j = i % v.e.rows(k), s = i / v.e.rows(k); bool z = s == 0 && !in_nyq(k) && v.e.xm[j] % 2; v.full[k][i] = z ? 0 : rnd(7, k, i, x); }
    for (int j = 0; j < d[0]; j++) { v.iotas[j] = rnd(x, 99, j); if (flux) { v.phip[j] = rnd(x, 91, j); v.chi[j] = rnd(x, 92, j); v.pres[j] = rnd(x, 93, j); v.phi[j] = rnd(x, 94, j); } }
    c.begin("ladder ns=" + std::to_string(d[0]) + (flux ? " flux " : " ") + v.e.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
    BX b; string m = c09_apply(v, b); if (m.empty()) m = c09_compare(v, b);
    if (!m.empty()) c.fail(m);
  }
  // large numbers of surfaces
  for (int ns : {17, 50, 99, 201, 333}) for (int asym = 0; asym < 2; asym++) {
    if (!c.next()) continue;
    Vmec v = c09_shape(ns, asym, 2, 4, 1, 3, 1, true);
    for (int k = 0; k < NIN; k++) for (size_t i = 0; i < v.full[k].size(); i++) { int j = i % v.e.rows(k), s = i / v.e.rows(k); bool z = s == 0 && !in_nyq(k) && v.e.xm[j] % 2; v.full[k][i] = z ? 0 : rnd(4, k, i, ns); }
    c.begin("dense ns=" + std::to_string(ns)); c.state(hash_str(c.desc) + asym); c.nontrivial++; c.transitions++;
    BX b; string m = c09_apply(v, b); if (m.empty()) m = c09_compare(v, b);
    if (!m.empty()) c.fail(m);
  }
}

// ---- C19 -------------------------------------------------------------------

static void c19_modes(Ctx& c) {
  int M = c.thorough ? 60 : 34, N = c.thorough ? 30 : 16;
  for (int mb = 1; mb <= M; mb++) for (int nb = 0; nb <= N; nb++) for (int nfp : {1, 2, 3, 4, 5, 6, 8, 10, 12, 19}) for (int asym = 0; asym < 2; asym++) {
    bool small = mb <= 8 && nb <= 5;
    if (!small && nfp != 1 + (mb + nb) % 12) continue;
    for (int nsurf = 0; nsurf <= (small ? 3 : 1); nsurf++) {
      if (!c.next()) continue;
      // already in Boozer coordinates, with a distinct amplitude for every mode
      int mq = std::min(mb - 1, 3), nq = std::min(nb, 2);
      Eq e = shape(asym, nfp, mq + 1, nq, mq, nq, 2, mb, nb);
      e.alloc();
      for (int s = 0; s < 2; s++) { e.at(BSUBU, 0, s) = 0.1; e.at(BSUBV, 0, s) = 1.5;
        for (int j = 0; j < e.mnq(); j++) for (int k : {BMNC, RMNC, ZMNS, BMNS, RMNS, ZMNC}) if (!e.a[k].empty()) e.at(k, j, s) = (j == 0 && (k == BMNC || k == RMNC)) ? 3 : 0.4 / (2 + j + 0.17 * k + 0.31 * s); }
      e.surfs.clear(); for (int q = 0; q < nsurf; q++) e.surfs.push_back((q + 1) % 2);
      c.begin("modes " + e.str()); c.state(e.hash()); c.nontrivial++;
      Res x; if (!run_impl(c, e, x)) continue;
      std::ostringstream o;
      int want = (2 * nb + 1) * (mb - 1) + nb + 1;
      if (x.mnboz != want || (int)x.xm.size() != want || (int)x.xn.size() != want) { o << "number of modes " << x.mnboz << " / " << x.xm.size() << " / " << x.xn.size() << " expected " << want; c.fail(o.str()); continue; }
      if (x.ns_b != nsurf) { c.fail("ns_b=" + std::to_string(x.ns_b)); continue; }
      std::set<std::pair<int, int>> seen; bool bad = false;
      for (int j = 0; j < want && !bad; j++) {
        int m = x.xm[j], n = x.xn[j];
        if (m < 0 || m >= mb || n % nfp || std::abs(n) > nb * nfp || (m == 0 && n < 0) || !seen.insert({m, n}).second) { o << "mode " << j << " is (" << m << ", " << n << ")"; bad = true; }
        if (j && !(x.xm[j] > x.xm[j - 1] || (x.xm[j] == x.xm[j - 1] && x.xn[j] > x.xn[j - 1]))) { o << "modes not ordered at " << j; bad = true; }
      }
      if (!bad && (x.xm[0] || x.xn[0])) { o << "first mode is not (0,0)"; bad = true; }
      for (int k = 0; k < NOUT && !bad; k++) { int r = (k < BMNS_B || asym) ? want : 0, q = (k < BMNS_B || asym) ? nsurf : 0; if (x.rows[k] != r || x.cols[k] != q) { o << out_name[k] << " is " << x.rows[k] << " x " << x.cols[k]; bad = true; } }
      static const int src[NOUT] = {BMNC, RMNC, ZMNS, -1, -2, BMNS, RMNS, ZMNC, -1, -2};
      for (int k = 0; k < NOUT && !bad; k++) if (src[k] != -2) for (int b = 0; b < x.cols[k] && !bad; b++) for (int j = 0; j < want && !bad; j++) {
        double w = 0; int q = src[k] >= 0 ? find_mode(e.xm, e.xn, x.xm[j], x.xn[j]) : -1;
        if (q >= 0) w = e.at(src[k], q, e.surfs[b]);
        if (j == 0 && (k == ZMNS_B || k == BMNS_B || k == RMNS_B)) w = 0;
        if (!(std::fabs(x.at(k, j, b) - w) <= 1e-12)) { o.precision(15); o << out_name[k] << " of mode (" << x.xm[j] << ", " << x.xn[j] << ") is " << x.at(k, j, b) << " expected " << w; bad = true; }
      }
      if (bad) c.fail(o.str());
      else if (small) check_ref(c, e);
    }
  }
}

// A few modes of the highest m and n, in Boozer coordinates or slightly off, at large resolutions.
static Eq sparse(int asym, int nfp, int mb, int nb, double amp) {
  Eq e; e.asym = asym; e.nfp = nfp; e.ns = 1; e.mboz = mb; e.nboz = nb; e.mpol = mb; e.ntor = nb; e.mpolq = mb - 1; e.ntorq = nb;
  std::set<std::pair<int, int>> ms = {{0, 0}};
  for (int m : {0, 1, mb / 2, mb - 1}) for (int n : {-nb, -nb / 2, -1, 0, 1, nb / 2, nb}) if (m >= 0 && m < mb && std::abs(n) <= nb && (m || n >= 0)) ms.insert({m, n});
  for (auto& q : ms) { e.xm.push_back(q.first); e.xn.push_back(q.second * nfp); e.xmq.push_back(q.first); e.xnq.push_back(q.second * nfp); }
  fill_generic(e, 66, 1.5, 0.2, 0.7, amp);
  // amplitudes that do not decay
  for (int k : {BMNC, RMNC, ZMNS, BMNS, RMNS, ZMNC}) if (!e.a[k].empty()) for (int j = 0; j < e.rows(k); j++) if (j || (k != BMNC && k != RMNC)) e.at(k, j, 0) = 0.03 * rnd(k, j, 5) + 0.02;
  for (int k : {LMNS, LMNC, BSUBU, BSUBV, BSUBUS, BSUBVS}) if (!e.a[k].empty()) for (int j = 0; j < e.rows(k); j++) if (amp == 0 && (j || k > BSUBV || k == LMNS)) e.at(k, j, 0) = 0;
  return e;
}
static void c19_large(Ctx& c) {
  auto go = [&](int asym, int nfp, int mb, int nb, bool ref) {
    if (!c.next()) return;
    Eq e = sparse(asym, nfp, mb, nb, 0);
    c.begin("large resolution, Boozer coordinates " + e.str()); c.state(e.hash()); c.nontrivial++;
    Res x; if (!run_impl(c, e, x)) return;
    vector<int> xm, xn; mode_list(mb, nb, nfp, xm, xn);
    if (x.xm != xm || x.xn != xn || x.mnboz != (int)xm.size()) { c.fail("mode list"); return; }
    static const int src[NOUT] = {BMNC, RMNC, ZMNS, -1, -2, BMNS, RMNS, ZMNC, -1, -2};
    for (int k = 0; k < NOUT; k++) if (src[k] != -2) for (int b = 0; b < x.cols[k]; b++) for (int j = 0; j < x.rows[k]; j++) {
      int q = src[k] >= 0 ? find_mode(e.xm, e.xn, xm[j], xn[j]) : -1; double w = q >= 0 ? e.at(src[k], q, 0) : 0;
      if (j == 0 && (k == ZMNS_B || k == BMNS_B || k == RMNS_B)) w = 0;
      if (!(std::fabs(x.at(k, j, b) - w) <= 1e-11)) { std::ostringstream o; o.precision(15); o << out_name[k] << " of mode (" << xm[j] << ", " << xn[j] << ") is " << x.at(k, j, b) << " expected " << w; c.fail(o.str()); return; }
    }
    if (ref) { Eq f = sparse(asym, nfp, mb, nb, 0.1 / (mb + nb * nfp)); check_ref(c, f); }
  };
  for (int asym = 0; asym < 2; asym++) {
    for (int mb = 1; mb <= (c.thorough ? 256 : 136); mb++) { go(asym, 1 + mb % 3, mb, 0, true); go(asym, 1 + mb % 5, mb, 1, mb <= 80 || c.thorough); }
    for (int nb = 0; nb <= (c.thorough ? 256 : 136); nb++) { go(asym, 1 + nb % 5, 1, nb, true); go(asym, 1 + nb % 3, 2, nb, nb <= 80 || c.thorough); if (nb <= 72 || c.thorough) go(asym, 1 + nb % 2, 4, nb, nb <= 48 || c.thorough); }
    for (int mb : {17, 24, 32, 33}) for (int nb : {17, 24, 32, 33}) go(asym, 1 + (mb + nb) % 4, mb, nb, false);
    if (c.thorough) for (int mb : {48, 64, 72}) for (int nb : {32, 48, 64}) go(asym, 2, mb, nb, false);
    for (int nfp = 1; nfp <= 64; nfp++) { go(asym, nfp, 3, 3, true); go(asym, nfp, 2, 7, true); }
  }
}
// Output resolutions below and above that of the input, each against the definition.
static void c19_cut(Ctx& c) {
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 2, 5}) for (int mp = 1; mp <= 4; mp++) for (int nt = 0; nt <= 3; nt++) for (int mb = 1; mb <= 6; mb++) for (int nb = 0; nb <= 5; nb++) for (int sg = 0; sg < (c.thorough ? 10 : 2); sg++) {
    if (!c.next()) continue;
    Eq e = shape(asym, nfp, mp, nt, mp, nt, 2, mb, nb);
    std::ostringstream o; o << "input beyond or below the output " << e.str() << " sign " << sg; c.begin(o.str());
    fill_generic(e, 21, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota);
    e.surfs = {1, 0};
    check_ref(c, e);
  }
}

// amplitude of a mode does not depend on the maximum resolution (converged field)
static void c19_nested(Ctx& c) {
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int axi = 0; axi < 2; axi++) for (int sg = 0; sg < 5; sg++) {
    Eq e = shape(asym, nfp, 3, axi ? 0 : 1, 3, axi ? 0 : 1, 1, 20, axi ? 0 : 9);
    fill_generic(e, 8, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota, 0.01 / (1 + (axi ? 0 : 0.5 * nfp)));
    for (int j = 1; j < e.mnq(); j++) { e.at(BMNC, j, 0) *= 0.1; if (asym) e.at(BMNS, j, 0) *= 0.1; }
    Res hi; bool have = false;
    for (int mb = 9; mb <= 19; mb++) for (int nb = axi ? 0 : 6; nb <= (axi ? 0 : 8); nb++) {
      if (!c.next()) continue;
      c.begin("nested resolution mboz=" + std::to_string(mb) + " nboz=" + std::to_string(nb) + " " + e.str()); c.nontrivial++;
      if (!have) { if (!run_impl(c, e, hi)) break; have = true; }
      Eq f = e; f.mboz = mb; f.nboz = nb; c.state(f.hash());
      Res x; if (!run_impl(c, f, x)) break;
      bool bad = false;
      for (int k = 0; k < NOUT && !bad; k++) for (int j = 0; j < x.rows[k] && !bad; j++) { int q = find_mode(hi.xm, hi.xn, x.xm[j], x.xn[j]); double d = q < 0 ? 9 : std::fabs(x.at(k, j, 0) - hi.at(k, q, 0)); g_worst = std::max(g_worst, d); if (!(d <= 1e-8)) { std::ostringstream o; o.precision(15); o << out_name[k] << "(" << x.xm[j] << "," << x.xn[j] << ")=" << x.at(k, j, 0) << " but " << (q < 0 ? 0 : hi.at(k, q, 0)) << " at mboz=20"; c.fail(o.str()); bad = true; } }
    }
  }
}

// ---- C20 -------------------------------------------------------------------

static void c20_repr(Ctx& c) {
  int nsig = sizeof(SIGNS) / sizeof(SIGNS[0]);
  const double tol = 3e-12;
  for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int sh = 0; sh < 4; sh++) for (int sg = -1; sg < nsig; sg++) {
    int S[][6] = {{2, 1, 1, 1, 3, 1}, {3, 0, 3, 0, 4, 0}, {2, 1, 1, 1, 2, 2}, {1, 2, 1, 2, 2, 3}};
    Eq e = shape(asym, nfp, S[sh][0], S[sh][1], S[sh][2], S[sh][3], 2, S[sh][4], S[sh][5]);
    if (sg < 0) fill_generic(e, 55, 1.9, 0.2, 0.45); else fill_generic(e, 55 + sg, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota);
    e.surfs = {1, 0};
    Res want = impl(e); Res ref = ref_transform(e); for (int k = 0; k < NOUT; k++) want.scale[k] = ref.scale[k];
    auto test = [&](const Eq& f, const string& d, bool useref = true) {
      c.begin(d + " " + e.str()); c.state(mix(f.hash() ^ hash_str(d))); c.nontrivial++;
      Res x; if (!run_impl(c, f, x)) return;
      string s = cmp_all(x, want, tol, &g_worst);
      if (s.empty() && useref) s = cmp_all(x, ref, tol);
      if (!s.empty()) c.fail(s);
    };
    // all permutations of the mode lists (m=n=0 first for the Nyquist list; anywhere for the other)
    vector<int> p(e.mn()), pq(e.mnq());
    for (size_t i = 0; i < p.size(); i++) p[i] = i;
    for (size_t i = 0; i < pq.size(); i++) pq[i] = i;
    vector<int> id = p, idq = pq;
    do { if (c.next()) { std::ostringstream o; o << "mode order"; for (int i : p) o << ' ' << i; test(permuted(e, p, idq), o.str()); } } while (std::next_permutation(p.begin(), p.end()));
    do { if (c.next()) { std::ostringstream o; o << "Nyquist mode order"; for (int i : pq) o << ' ' << i; test(permuted(e, id, pq), o.str()); } } while (std::next_permutation(pq.begin() + 1, pq.end()));
    // the spellings combined with one another and with everything at other resolutions
    for (int sp = 1; sp < NSPELL; sp++) for (int sp2 = 0; sp2 < NSPELL; sp2++) for (int mb = 1; mb <= 5; mb++) for (int nb = 0; nb <= 3; nb++) {
      if (!c.next()) continue;
      Eq f = e; f.mboz = mb; f.nboz = nb; Eq g = respell(respell(f, sp), sp2);
      c.begin(string(spell_name[sp]) + ", then " + spell_name[sp2] + " " + f.str()); c.state(g.hash()); c.nontrivial++;
      Res x, y; if (!run_impl(c, f, y) || !run_impl(c, g, x)) continue;
      Res r = ref_transform(f); for (int k = 0; k < NOUT; k++) y.scale[k] = r.scale[k];
      string s = cmp_all(x, y, tol, &g_worst); if (s.empty()) s = cmp_all(x, r, tol); if (!s.empty()) c.fail(s);
    }
    // every mode split into two entries at every position
    for (int nyq = 0; nyq < 2; nyq++) for (int j = nyq; j < (nyq ? e.mnq() : e.mn()); j++) for (int pos = nyq; pos <= (nyq ? e.mnq() : e.mn()); pos++) for (double part : {0.25, -1.0, 1.0}) {
      if (!c.next()) continue;
      int m = nyq ? e.xmq[j] : e.xm[j], n = nyq ? e.xnq[j] : e.xn[j]; Eq f = add_mode(e, nyq, m, n, pos); int j2 = j >= pos ? j + 1 : j;
      for (int k = 0; k < NIN; k++) if (in_nyq(k) == (bool)nyq && !e.a[k].empty()) for (int s = 0; s < e.ns; s++) { double v = f.at(k, j2, s); f.at(k, pos, s) = part * v; f.at(k, j2, s) = v - part * v; }
      std::ostringstream o; o << "mode " << j << (nyq ? " (Nyquist)" : "") << " split " << part << " at " << pos; test(f, o.str());
    }
    // zero amplitude extra modes, of every (m, n) in and out of the old range, at every position; larger declared maxima
    for (int nyq = 0; nyq < 2; nyq++) for (int m = 0; m <= 6; m++) for (int n = -4; n <= 4; n++) for (int where = 0; where < 3; where++) {
      if (nyq && m == 0 && n == 0) continue;
      if (!c.next()) continue;
      int len = nyq ? e.mnq() : e.mn(), pos = where == 0 ? len : where == 1 ? 1 : (len + 1) / 2;
      Eq f = add_mode(e, nyq, m, n * nfp, pos);
      if (nyq) { f.mpolq = std::max(f.mpolq, m); f.ntorq = std::max(f.ntorq, std::abs(n)); } else { f.mpol = std::max(f.mpol, m + 1); f.ntor = std::max(f.ntor, std::abs(n)); }
      std::ostringstream o; o << "extra zero mode (" << m << "," << n * nfp << ")" << (nyq ? " (Nyquist)" : "") << " at " << pos; test(f, o.str());
    }
    // a great many extra modes and very large declared maxima
    for (int nyq = 0; nyq < 2; nyq++) for (int count : {30, 70, 130, 260, 600, 1100}) for (int where = 0; where < 3; where++) {
      if (!c.next()) continue;
      int len = nyq ? e.mnq() : e.mn(); Eq f = e; int pos = where == 0 ? len : where == 1 ? nyq : (len + 1) / 2, mm = nyq ? f.mpolq : f.mpol - 1, nn = nyq ? f.ntorq : f.ntor;
      auto& xm = nyq ? f.xmq : f.xm; auto& xn = nyq ? f.xnq : f.xn; vector<int> am, an;
      for (int i = 0; i < count; i++) { am.push_back(i % (mm + 1)); an.push_back(((i / (mm + 1)) % (2 * nn + 1) - nn) * nfp); if (nyq && am[i] == 0 && an[i] == 0) { am[i] = mm; an[i] = nn * nfp; } }
      if (nyq && mm == 0 && nn == 0) continue;
      xm.insert(xm.begin() + pos, am.begin(), am.end()); xn.insert(xn.begin() + pos, an.begin(), an.end());
      for (int k = 0; k < NIN; k++) if (in_nyq(k) == (bool)nyq && !e.a[k].empty()) { vector<double> w; for (int s = 0; s < e.ns; s++) for (int j = 0; j < len + count; j++) w.push_back(j >= pos && j < pos + count ? 0.0 : e.at(k, j < pos ? j : j - count, s)); f.a[k] = w; }
      std::ostringstream o; o << count << " extra zero modes" << (nyq ? " (Nyquist)" : "") << " at " << pos; test(f, o.str());
    }
    for (int big : {10, 20, 40, 80, 160}) for (int which = 0; which < 4; which++) {
      if (!c.next()) continue;
      Eq f = e; (which == 0 ? f.mpol : which == 1 ? f.ntor : which == 2 ? f.mpolq : f.ntorq) = big;
      std::ostringstream o; o << "declared maximum " << which << " is " << big; test(f, o.str());
    }
    for (int dm = 0; dm <= 6; dm++) for (int dn = 0; dn <= 6; dn++) for (int nyq = 0; nyq < 2; nyq++) {
      if (!c.next()) continue;
      Eq f = e; if (nyq) { f.mpolq += dm; f.ntorq += dn; } else { f.mpol += dm; f.ntor += dn; }
      std::ostringstream o; o << "declared maxima larger by " << dm << "," << dn << (nyq ? " (Nyquist)" : ""); test(f, o.str());
    }
    // every subset of the modes (others removed) equals the same with zeros kept
    for (int nyq = 0; nyq < 2; nyq++) { int len = nyq ? e.mnq() : e.mn(); if (len > 10) continue; for (int mask = 1; mask < (1 << len); mask++) {
      if (nyq && !(mask & 1)) continue;
      if (!c.next()) continue;
      Eq z = e, f = e; auto& xm = nyq ? f.xmq : f.xm; auto& xn = nyq ? f.xnq : f.xn; vector<int> km, kn;
      for (int j = 0; j < len; j++) if (mask >> j & 1) { km.push_back(xm[j]); kn.push_back(xn[j]); }
      for (int k = 0; k < NIN; k++) if (in_nyq(k) == (bool)nyq && !e.a[k].empty()) { f.a[k].clear(); for (int s = 0; s < e.ns; s++) for (int j = 0; j < len; j++) { if (mask >> j & 1) f.a[k].push_back(e.at(k, j, s)); else z.at(k, j, s) = 0; } }
      xm = km; xn = kn;
      std::ostringstream o; o << "subset " << mask << (nyq ? " (Nyquist)" : "") << " of modes"; c.begin(o.str() + " " + e.str()); c.state(f.hash()); c.nontrivial++;
      Res x, y; if (!run_impl(c, f, x) || !run_impl(c, z, y)) continue;
      Res rz = ref_transform(z); for (int k = 0; k < NOUT; k++) y.scale[k] = rz.scale[k];
      string s = cmp_all(x, y, tol, &g_worst); if (s.empty()) s = cmp_all(x, rz, tol);
      if (!s.empty()) c.fail(s);
    } }
    // m = 0 modes with negative n: every subset of them, in both lists
    vector<std::pair<int, int>> z0; for (int j = 0; j < e.mn(); j++) if (e.xm[j] == 0 && e.xn[j]) z0.push_back({0, j}); for (int j = 0; j < e.mnq(); j++) if (e.xmq[j] == 0 && e.xnq[j]) z0.push_back({1, j});
    for (int mask = 1; mask < (1 << z0.size()); mask++) { if (!c.next()) continue; Eq f = e; for (size_t i = 0; i < z0.size(); i++) if (mask >> i & 1) flip_sign(f, z0[i].first, z0[i].second); std::ostringstream o; o << "sign of n of m=0 modes, mask " << mask; test(f, o.str()); }
    // unused quantities
    for (int v = 0; v < 12; v++) {
      if (!c.next()) continue;
      Eq f = e; c.begin("unused quantities variant " + std::to_string(v) + " " + e.str()); c.state(mix(f.hash() + v)); c.nontrivial++;
      BX b; set_inputs(b, f);
      if (!asym && v < 6) *in_ptr(b, RMNS + v) = tom(vector<double>(f.rows(RMNS + v) * f.ns, v % 2 ? NAN : 1e30), f.rows(RMNS + v), f.ns);
      if (!asym && v == 6) for (int k = RMNS; k < NIN; k++) *in_ptr(b, k) = tom({1, 2, 3, 4, 5, 6}, 2, 3);
      if (v == 7) { b.phip = tov({1, 2, 3}); b.chi = tov({NAN}); b.pres = tov({}); b.phi = tov({3, 4, 5}); }
      if (v == 8) { b.aspect = NAN; b.toroidal_flux = INFINITY; }
      if (v == 9) for (int k = 0; k < NOUT; k++) *out_ptr(b, k) = tom(vector<double>(77 * 9, 1e10 + k), 77, 9);
      if (v == 10) { b.ns_b = 17; b.mnboz = 3; b.xm_b = toi({9, 9}); b.xn_b = toi({8}); b.s_b = tov({1}); b.Boozer_G = tov({4, 4, 4}); b.Boozer_I = tov({}); b.Boozer_G_all = tov({7}); b.Boozer_I_all = tov({7, 7, 7, 7, 7}); }
      if (v == 11) for (int j = 0; j < b.s_in.size(); j++) b.s_in[j] = -3.5 * j;
      try { b.run(); } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); continue; }
      Res x = get_outputs(b); Res w = want; if (v == 11) for (size_t i = 0; i < w.s_b.size(); i++) w.s_b[i] = -3.5 * e.surfs[i];
      string s = cmp_all(x, w, tol); if (!s.empty()) c.fail(s);
    }
    // spectra with the same modes for other settings: values of one coefficient doubled leave linear quantities of the others alone (superposition of R and Z)
    for (int k : {RMNC, ZMNS, RMNS, ZMNC}) if (!e.a[k].empty()) for (int j = 0; j < e.rows(k); j++) {
      if (!c.next()) continue;
      Eq f = e, g = e; f.at(k, j, 0) += 0.77; f.at(k, j, 1) -= 0.5; for (int q : {RMNC, ZMNS, RMNS, ZMNC}) for (auto& v : g.a[q]) v = 0; g.at(k, j, 0) = 0.77; g.at(k, j, 1) = -0.5;
      c.begin("superposition " + string(in_name[k]) + "[" + std::to_string(j) + "] " + e.str()); c.state(mix(f.hash() + 5)); c.nontrivial++;
      Res x, y; if (!run_impl(c, f, x) || !run_impl(c, g, y)) continue;
      Res w = want; for (int q : {RMNC_B, ZMNS_B, RMNS_B, ZMNC_B}) for (size_t i = 0; i < w.a[q].size(); i++) w.a[q][i] += y.a[q][i];
      for (int q = 0; q < NOUT; q++) for (auto& v : w.scale[q]) v = std::max(v * 1.5, 1.0);
      string s = cmp_all(x, w, tol); if (!s.empty()) c.fail(s);
    }
  }
}

#define MC_MORE {"c02_points", c02_points}, {"c02_modes", c02_modes}, {"c02_profiles", c02_profiles}, {"c03_fixed", c03_fixed}, {"c03_reparam", c03_reparam}, {"c04_sym", c04_sym}, \
  {"c05_select", c05_select}, {"c09_regrid", c09_regrid}, {"c19_modes", c19_modes}, {"c19_nested", c19_nested}, {"c19_large", c19_large}, {"c19_cut", c19_cut}, {"c01_special", c01_special}, {"c01_sets", c01_sets}, {"c20_repr", c20_repr}
