// Shapes, sign combinations, and VMEC data with the specification of the radial regridding.
#pragma once
#include "model.hpp"
namespace vf {

static Eq shape(int asym, int nfp, int mpol, int ntor, int mpolq, int ntorq, int ns, int mboz, int nboz) {
  Eq e; e.asym = asym; e.nfp = nfp; e.mpol = mpol; e.ntor = ntor; e.mpolq = mpolq; e.ntorq = ntorq; e.ns = ns; e.mboz = mboz; e.nboz = nboz;
  e.vmec_modes(); return e;
}

struct Sign { double G, I, iota; };
static const Sign SIGNS[] = {{2, 0.3, 0.4}, {2, 0.3, -0.4}, {2, -0.3, 0.4}, {-2, 0.3, 0.4}, {-2, -0.3, -0.7}, {2, 0, 0.4}, {2, 0.3, 0}, {-1.5, 0, 0}, {0.01, 0.002, 1.3}, {2, -1.1, 1.2}, {0, 0.8, 1.2}, {-1, 0, -1}, {1, 1, 1}, {2, 1e-7, 0.4}, {2, 0.3, 1e-6}, {3e-7, 1e-7, 0.3}, {-2, -3e-12, 1e-9}};

struct Vmec { int ns; Eq e; vector<double> iotas, full[NIN], phip, chi, pres, phi; bool flux; };   // arrays with ns columns

static string c09_apply(Vmec& v, BX& b) {
  Eq& e = v.e;
  b.verbose = e.verbose; b.asym = e.asym; b.nfp = e.nfp; b.mpol = e.mpol; b.ntor = e.ntor; b.mnmax = e.mn(); b.mpol_nyq = e.mpolq; b.ntor_nyq = e.ntorq; b.mnmax_nyq = e.mnq();
  b.xm = toi(e.xm); b.xn = toi(e.xn); b.xm_nyq = toi(e.xmq); b.xn_nyq = toi(e.xnq);
  booz_xform::Matrix a[NIN];
  for (int k = 0; k < NIN; k++) if (!v.full[k].empty()) a[k] = tom(v.full[k], e.rows(k), v.ns);
  booz_xform::Vector io = tov(v.iotas), pp = tov(v.phip), ch = tov(v.chi), pr = tov(v.pres), ph = tov(v.phi);
  try {
    if (v.flux) b.init_from_vmec(v.ns, io, a[RMNC], a[RMNS], a[ZMNC], a[ZMNS], a[LMNC], a[LMNS], a[BMNC], a[BMNS], a[BSUBU], a[BSUBUS], a[BSUBV], a[BSUBVS], pp, ch, pr, ph);
    else b.init_from_vmec(v.ns, io, a[RMNC], a[RMNS], a[ZMNC], a[ZMNS], a[LMNC], a[LMNS], a[BMNC], a[BMNS], a[BSUBU], a[BSUBUS], a[BSUBV], a[BSUBVS]);
  } catch (std::exception& ex) { return string("unexpected exception: ") + ex.what(); }
  return "";
}

static string c09_compare(const Vmec& v, BX& b) {
  const Eq& e = v.e; int n = v.ns - 1; std::ostringstream o; o.precision(17);
  if (b.ns_in != n) { o << "ns_in=" << b.ns_in; return o.str(); }
  if (b.mboz != 6 * e.mpol) { o << "mboz=" << b.mboz; return o.str(); }
  if (b.nboz != std::max(2 * e.ntor - 1, 0)) { o << "nboz=" << b.nboz; return o.str(); }
  if (b.s_in.size() != n || b.iota.size() != n || b.compute_surfs.size() != n) return "size of s_in, iota or compute_surfs";
  double hs = 1.0 / n;
  for (int j = 0; j < n; j++) {
    if (std::fabs(b.s_in[j] - (j + 0.5) * hs) > 1e-14) { o << "s_in[" << j << "]=" << b.s_in[j]; return o.str(); }
    if (!same(b.iota[j], v.iotas[j + 1])) { o << "iota[" << j << "]=" << b.iota[j]; return o.str(); }
    if (b.compute_surfs[j] != j) return "compute_surfs is not all surfaces";
  }
  const booz_xform::Vector* p[4] = {&b.phip, &b.chi, &b.pres, &b.phi}; const vector<double>* q[4] = {&v.phip, &v.chi, &v.pres, &v.phi}; const char* nm[4] = {"phip", "chi", "pres", "phi"};
  for (int t = 0; t < 4; t++) {
    if (!v.flux) { if (p[t]->size()) return string(nm[t]) + " should be empty"; continue; }
    if (p[t]->size() != v.ns) return string(nm[t]) + " has wrong size";
    for (int j = 0; j < v.ns; j++) { double w = t == 0 ? -(*q[t])[j] / (2 * PI) : (*q[t])[j]; if (!same((*p[t])[j], w) && !(std::fabs((*p[t])[j] - w) <= 1e-14 * std::fabs(w))) { o << nm[t] << "[" << j << "]=" << (*p[t])[j] << " expected " << w; return o.str(); } }
  }
  if (!same(b.toroidal_flux, v.flux ? v.phi[v.ns - 1] : 0.0)) { o << "toroidal_flux=" << b.toroidal_flux; return o.str(); }
  for (int k = 0; k < NIN; k++) {
    if (in_asym(k) && !e.asym) continue;
    auto* m = in_ptr(b, k); int r = e.rows(k);
    if (m->rows() != r || m->cols() != n) return string(in_name[k]) + " has the wrong shape";
    bool half = in_nyq(k) || k == LMNS || k == LMNC;
    for (int j = 0; j < r; j++) {
      double big = 0; for (int s = 0; s < v.ns; s++) big = std::max(big, std::fabs(v.full[k][j + (size_t)r * s]));
      for (int s = 0; s < n; s++) {
        auto f = [&](int t) { return v.full[k][j + (size_t)r * t]; };
        double w, sq = std::sqrt((s + 0.5) * hs), s0 = std::sqrt(s * hs), s1 = std::sqrt((s + 1) * hs);
        int mm = in_nyq(k) ? e.xmq[j] : e.xm[j]; bool exact = false;
        if (half) { w = f(s + 1); exact = true; }
        else if (mm % 2 == 0) w = 0.5 * f(s) + 0.5 * f(s + 1);
        else if (s > 0) w = 0.5 * (f(s) / s0 + f(s + 1) / s1) * sq;
        else if (mm == 1) {
          // with a single point off the axis there is nothing to extrapolate from: amplitude / sqrt(s) is constant
          double a1 = f(1) / std::sqrt(hs), a2 = v.ns < 3 ? a1 : f(2) / std::sqrt(2 * hs), a0 = 2 * a1 - a2; w = 0.5 * (a0 + a1) * sq;
        } else {
          // m = 3, 5, ...: the amplitude divided by sqrt(s) vanishes on the axis (if the amplitude does)
          if (f(0) != 0) continue;
          w = 0.5 * (0 + f(1) / s1) * sq;
        }
        double g = (*m)(j, s);
        if (exact ? !same(g, w) : !(std::fabs(g - w) <= 4e-15 * big * std::sqrt((double)v.ns) + 1e-300)) { o << in_name[k] << "(m=" << mm << ", surface " << s << ")=" << g << " expected " << w; return o.str(); }
      }
    }
  }
  return "";
}

static Vmec c09_shape(int ns, int asym, int nfp, int mpol, int ntor, int mq, int nq, bool flux) {
  Vmec v; v.ns = ns; v.flux = flux; v.e = shape(asym, nfp, mpol, ntor, mq, nq, ns, 1, 0);
  v.iotas.resize(ns); for (int j = 0; j < ns; j++) v.iotas[j] = j ? 0.3 + 0.1 * j : 0;
  for (int k = 0; k < NIN; k++) v.full[k].assign(in_asym(k) && !asym ? 0 : (size_t)v.e.rows(k) * ns, 0.0);
  if (flux) for (int j = 0; j < ns; j++) { v.phip.push_back(1.5 + 0.1 * j); v.chi.push_back(0.2 * j); v.pres.push_back(100. - j); v.phi.push_back(-0.7 * j); }
  return v;
}


} // namespace vf
