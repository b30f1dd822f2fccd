#pragma once
#include "model.hpp"
namespace vf {

// ---- other spellings of the same input ----

static Eq permuted(const Eq& e, const vector<int>& p, const vector<int>& pq) {
  Eq f = e;
  for (size_t j = 0; j < p.size(); j++) { f.xm[j] = e.xm[p[j]]; f.xn[j] = e.xn[p[j]]; }
  for (size_t j = 0; j < pq.size(); j++) { f.xmq[j] = e.xmq[pq[j]]; f.xnq[j] = e.xnq[pq[j]]; }
  for (int k = 0; k < NIN; k++) if (!e.a[k].empty()) for (int s = 0; s < e.ns; s++) for (int j = 0; j < e.rows(k); j++) f.at(k, j, s) = e.at(k, in_nyq(k) ? pq[j] : p[j], s);
  return f;
}
// insert a copy of mode j (which list) at the end or front+1, dividing amplitudes
static Eq add_mode(const Eq& e, bool nyq, int m, int n, int pos) {
  Eq f = e; auto& xm = nyq ? f.xmq : f.xm; auto& xn = nyq ? f.xnq : f.xn; int r = xm.size();
  xm.insert(xm.begin() + pos, m); xn.insert(xn.begin() + pos, n);
  for (int k = 0; k < NIN; k++) if (in_nyq(k) == nyq && !e.a[k].empty()) { vector<double> v; for (int s = 0; s < e.ns; s++) for (int j = 0; j <= r; j++) v.push_back(j == pos ? 0.0 : e.a[k][(j > pos ? j - 1 : j) + (size_t)r * s]); f.a[k] = v; }
  return f;
}
static void flip_sign(Eq& e, bool nyq, int j) {   // m = 0: n -> -n
  auto& xn = nyq ? e.xnq : e.xn; xn[j] = -xn[j];
  for (int k = 0; k < NIN; k++) if (in_nyq(k) == nyq && !e.a[k].empty()) { bool sine = k == ZMNS || k == LMNS || k == RMNS || k == BMNS || k == BSUBUS || k == BSUBVS; if (sine) for (int s = 0; s < e.ns; s++) e.at(k, j, s) = -e.at(k, j, s); }
}

// The same input written down differently.
enum { NSPELL = 6 };
static const char* spell_name[NSPELL] = {"plain", "reversed lists", "negative n for m=0 (Nyquist)", "negative n for m=0", "split modes", "everything"};
static Eq respell(const Eq& e0, int v) {
  Eq e = e0;
  if (v == 2 || v == 5) for (int j = 0; j < e.mnq(); j++) if (e.xmq[j] == 0 && e.xnq[j] > 0) flip_sign(e, true, j);
  if (v == 3 || v == 5) for (int j = 0; j < e.mn(); j++) if (e.xm[j] == 0 && e.xn[j] > 0) flip_sign(e, false, j);
  if (v == 4 || v == 5) for (int nyq = 0; nyq < 2; nyq++) for (int which = 0; which < 2; which++) {
    int len = nyq ? e.mnq() : e.mn(), j = which ? len - 1 : nyq; if (j >= len || (nyq && j == 0)) continue;
    int m = nyq ? e.xmq[j] : e.xm[j], n = nyq ? e.xnq[j] : e.xn[j]; e = add_mode(e, nyq, m, n, len);
    for (int k = 0; k < NIN; k++) if (in_nyq(k) == (bool)nyq && !e.a[k].empty()) for (int s = 0; s < e.ns; s++) { double x = e.at(k, j, s); e.at(k, len, s) = 0.3 * x; e.at(k, j, s) = x - 0.3 * x; }
  }
  if (v == 1 || v == 5) { vector<int> p, q; for (int j = e.mn(); j-- > 0;) p.push_back(j); if (e.mnq()) q.push_back(0); for (int j = e.mnq(); j-- > 1;) q.push_back(j); e = permuted(e, p, q); }
  return e;
}

} // namespace vf
