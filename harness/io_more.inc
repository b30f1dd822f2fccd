// C07 histories, C14 defects, C08 console (included by io.cpp).

// ---- C07 -------------------------------------------------------------------

namespace hist {
// loads; all wout files are read under the same name
struct Src { Vmec v; bool flux; string bytes; double aspect; };
static vector<Src> src; static string mn_bytes[3];
enum { NLOAD = 6, L_DIRECT = 5 };
struct Setting { int mb, nb, surf; };    // mb < 0: defaults kept (only small data)
static const Setting SET[] = {{3, 1, 0}, {2, 1, 1}, {5, 0, 2}, {1, 4, 0}, {2, 2, 3}};
enum { NSET = 5 };

static vector<int> surf_of(int k, int n) { vector<int> all; for (int j = 0; j < n; j++) all.push_back(j); if (k == 0) return all; if (k == 1) return {n - 1}; if (k == 2) return {n - 1, 0}; return {0}; }

static void setup() {
  if (!src.empty()) return;
  auto add = [](Vmec v, bool flux, double asp) { Src s; s.v = v; s.flux = flux; s.aspect = asp; s.bytes = cdf::encode(wout_file(v, asp)); src.push_back(s); };
  Vmec a = make_vmec(4, 0, 2, 2, 1, 2, 1, true, 101); add(a, true, 3.5); add(a, false, 3.5);
  add(make_vmec(4, 0, 2, 2, 1, 2, 1, true, 202), true, 4.5);          // same shape, other values
  add(make_vmec(5, 1, 3, 2, 1, 2, 1, true, 303), true, 5.5);          // asymmetric, other nfp, more surfaces
  add(make_vmec(2, 0, 1, 1, 0, 1, 0, true, 404), false, 6.5);         // minimal
  add(make_vmec(3, 1, 2, 3, 0, 3, 1, true, 505), false, 7.5);         // handed over directly
  for (int t = 0; t < 2; t++) { Vmec v = make_vmec(t ? 4 : 6, t == 0, t ? 2 : 4, 2, 1, 2, 1, true, 600 + t); BX b; b.verbose = 0; cdf::write("w0.nc", wout_file(v, 8.5)); b.read_wout("w0.nc", t == 0); b.mboz = 3; b.nboz = 1; b.compute_surfs = toi(t ? vector<int>{2, 0} : vector<int>{0, 3}); b.run(); b.write_boozmn("w1.nc"); mn_bytes[t] = cdf::slurp("w1.nc"); }
}

static void load(BX& b, int k, const string& name) {
  Src& s = src[k];
  if (k == L_DIRECT) { int vb = b.verbose; Vmec v = s.v; v.flux = false; v.phip.clear(); v.chi.clear(); v.pres.clear(); v.phi.clear(); b.aspect = s.aspect; v.e.verbose = vb; string m = c09_apply(v, b); if (!m.empty()) throw std::runtime_error(m); b.aspect = s.aspect; return; }
  cdf::spit(name, s.bytes); b.read_wout(name, s.flux);
}
static int nin(int k) { return src[k].v.ns - 1; }

static const std::set<string> OUTS = {"ns_b", "mnboz", "xm_b", "xn_b", "s_b", "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all", "bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b", "bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b", "verbose"};
static std::set<string> skip_input(int k) { std::set<string> s = {"verbose"}; if (!src[k].v.e.asym) for (int i = RMNS; i < NIN; i++) s.insert(in_name[i]); return s; }

// what a fresh object gives
struct Base { Snap loaded, ran; string bytes; };
static std::map<string, Base> memo;
static Base& base(int k, int mb, int nb, const vector<int>& sf) {
  std::ostringstream o; o << k << ' ' << mb << ' ' << nb; for (int s : sf) o << ' ' << s;
  auto it = memo.find(o.str()); if (it != memo.end()) return it->second;
  Base B; BX b; b.verbose = 0; load(b, k, "base.nc"); B.loaded = snap(b); b.mboz = mb; b.nboz = nb; b.compute_surfs = toi(sf); b.run(); B.ran = snap(b); b.write_boozmn("basemn.nc"); B.bytes = cdf::slurp("basemn.nc");
  return memo[o.str()] = B;
}
static Snap mn_base[2]; static string mn_rewritten[2];
static const std::set<string> NOT_IN_MN = {"verbose", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "xm", "xn", "xm_nyq", "xn_nyq", "s_in", "rmnc", "zmns", "lmns", "bmnc", "bsubumnc", "bsubvmnc", "rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"};

// operations of the histories
static const char* opname[] = {"load A", "load A without fluxes", "load A'", "load asymmetric B", "load small C", "load D directly", "resolution 2,1", "resolution 5,0", "surfaces: last", "surfaces: last, first", "run", "write", "read boozmn F", "read boozmn G", "read missing file", "read malformed wout", "read malformed boozmn", "verbose=2", "overwrite outputs", "surfaces out of range", "resolution 0,0", "read A as boozmn"};
enum { NOP = 22 };
struct Mod { int load = -1; bool defined = false; int mb = 0, nb = 0; vector<int> sf; bool reads_ok = true; bool ran = false; };

static void apply(BX& b, Mod& m, int op, i64& tr) {
  tr++;
  try {
    switch (op) {
    case 0: case 1: case 2: case 3: case 4: case 5: m.defined = false; load(b, op, "in.nc"); m.load = op; m.defined = true; m.mb = 6 * src[op].v.e.mpol; m.nb = std::max(2 * src[op].v.e.ntor - 1, 0); m.sf = surf_of(0, nin(op)); break;
    case 6: b.mboz = m.mb = 2; b.nboz = m.nb = 1; break;
    case 7: b.mboz = m.mb = 5; b.nboz = m.nb = 0; break;
    case 8: if (b.ns_in > 0) { m.sf = {b.ns_in - 1}; b.compute_surfs = toi(m.sf); } break;
    case 9: if (b.ns_in > 0) { m.sf = {b.ns_in - 1, 0}; b.compute_surfs = toi(m.sf); } break;
    case 10: b.run(); break;
    case 11: b.write_boozmn("out.nc"); break;
    case 12: case 13: m.defined = false; cdf::spit("mn.nc", mn_bytes[op - 12]); b.read_boozmn("mn.nc"); break;
    case 14: b.read_wout("does_not_exist.nc", true); break;
    case 15: { m.defined = false; static string bad; if (bad.empty()) { Vmec w = make_vmec(6, 1, 5, 3, 2, 2, 2, true, 77); cdf::File f = wout_file(w, 2); vector<cdf::Var> k; for (auto& x : f.vars) if (x.name != "bsubvmns") k.push_back(x); f.vars = k; bad = cdf::encode(f); } cdf::spit("in.nc", bad); b.read_wout("in.nc", true); break; }
    case 16: { m.defined = false; static string bad; if (bad.empty()) { cdf::File f = cdf::decode(mn_bytes[0]); vector<cdf::Var> k; for (auto& x : f.vars) if (x.name != "pmns_b") k.push_back(x); f.vars = k; bad = cdf::encode(f); } cdf::spit("mn.nc", bad); b.read_boozmn("mn.nc"); break; }
    case 17: b.verbose = 2; break;
    case 18: for (int k = 0; k < NOUT; k++) *out_ptr(b, k) = tom(vector<double>(6, NAN), 2, 3); b.s_b = tov({5, 6}); b.Boozer_G = tov({NAN}); b.Boozer_I = tov({}); b.Boozer_G_all = tov({1, 2, 3, 4, 5, 6, 7}); b.Boozer_I_all = tov({NAN}); b.xm_b = toi({4, 4}); b.xn_b = toi({3}); b.ns_b = 77; b.mnboz = 3; break;
    case 19: m.sf = {99}; b.compute_surfs = toi(m.sf); break;
    case 20: b.mboz = m.mb = 0; b.nboz = m.nb = 0; break;
    case 21: m.defined = false; cdf::spit("mn.nc", src[0].bytes); b.read_boozmn("mn.nc"); break;
    }
  } catch (std::exception&) { }
}
static Snap phip_fix(Snap s) { for (auto& a : s.v) if (a.first == "phip" && a.second.size() > 1) a.second[0] = 0; return s; }

static string cmp_run(BX& b, int k, int mb, int nb, const vector<int>& sf, i64& tr, bool twice) {
  Base& B = base(k, mb, nb, sf);
  if (twice) { b.run(); tr++; }
  b.run(); tr++;
  auto sk = skip_input(k);
  string m = snap_cmp(phip_fix(snap(b)), phip_fix(B.ran), sk, 1e-11); if (!m.empty()) return "after run: " + m;
  b.write_boozmn("out.nc"); tr++;
  string by = cdf::slurp("out.nc");
  if (by != B.bytes) { cdf::spit("basemn.nc", B.bytes); m = same_contents("out.nc", "basemn.nc"); if (m.empty()) return ""; // tolerate last-digit differences of values only
    cdf::File x = cdf::decode(by), y = cdf::decode(B.bytes); if (x.vars.size() != y.vars.size()) return "file: " + m;
    for (auto& v : x.vars) { const cdf::Var* w = y.var(v.name); if (!w || w->type != v.type || w->v.size() != v.v.size() || w->text != v.text) return "file: " + m; double big = 0; for (double q : w->v) if (std::isfinite(q)) big = std::max(big, std::fabs(q)); for (size_t i = 0; i < v.v.size(); i++) if (!same(v.v[i], w->v[i]) && !(std::fabs(v.v[i] - w->v[i]) <= 1e-11 * big)) return "file: " + m; } }
  return "";
}
} // namespace hist

static void c07_hist(Ctx& c) {
  using namespace hist; Quiet q; setup();
  for (int t = 0; t < 2; t++) { BX b; b.verbose = 0; cdf::spit("mn.nc", mn_bytes[t]); b.read_boozmn("mn.nc"); mn_base[t] = snap(b); }
  // all sequences over the alphabet up to length L, longer ones over its core
  vector<int> all, core = {0, 1, 3, 4, 6, 8, 10, 11, 12, 17, 18}; for (int i = 0; i < NOP; i++) all.push_back(i);
  vector<std::pair<int, const vector<int>*>> levels; for (int l = 0; l <= (c.thorough ? 4 : 3); l++) levels.push_back({l, &all}); levels.push_back({c.thorough ? 5 : 4, &core});
  for (auto& lv : levels) { i64 tot = 1; for (int l = 0; l < lv.first; l++) tot *= lv.second->size(); for (i64 code = 0; code < tot; code++) {
    if (!c.next()) continue;
    int len = lv.first; i64 t = code; vector<int> ops; for (int i = 0; i < len; i++) { ops.push_back((*lv.second)[t % lv.second->size()]); t /= lv.second->size(); }
    std::ostringstream d; d << "history"; for (int o : ops) d << " [" << opname[o] << "]"; c.begin(d.str()); if (len) c.nontrivial++;
    bool bad = false; uint64_t sh = 0;
    auto fail = [&](const string& w) { if (!bad) c.fail(w); bad = true; };
    // finals: -1 continue with the state as it is; 0..NLOAD-1 load; 6, 7: read boozmn; longer histories take turns in the settings
    for (int f = -1; f < NLOAD + 2 && !bad; f++) {
      q.s.str(""); std::cout.copyfmt(std::ios(nullptr));
      BX b; b.verbose = 0; Mod m; for (int o : ops) apply(b, m, o, c.transitions);
      if (f == -1) sh = snap_hash(snap(b));
      try {
        if (f == -1) {
          if (!m.defined || m.mb < 1) continue;
          for (int s : m.sf) if (s >= nin(m.load)) { m.defined = false; break; }
          if (!m.defined) continue;
          string w = cmp_run(b, m.load, m.mb, m.nb, m.sf, c.transitions, false); if (!w.empty()) fail("continued: " + w);
        } else if (f < NLOAD) {
          int vb = b.verbose; load(b, f, "in.nc"); c.transitions++;
          if (b.verbose != vb) { fail("verbose has changed"); break; }
          const Setting& S = SET[(code + f) % NSET]; vector<int> sf = surf_of(S.surf, nin(f));
          auto sk = skip_input(f); sk.insert(OUTS.begin(), OUTS.end());
          string w = snap_cmp(snap(b), base(f, S.mb, S.nb, sf).loaded, sk); if (!w.empty()) { fail(string("then ") + opname[f] + ": " + w); break; }
          b.mboz = S.mb; b.nboz = S.nb; b.compute_surfs = toi(sf);
          w = cmp_run(b, f, S.mb, S.nb, sf, c.transitions, (code + f) % 2); if (!w.empty()) fail(string("then ") + opname[f] + ", resolution " + std::to_string(S.mb) + "," + std::to_string(S.nb) + ": " + w);
        } else {
          int t = f - NLOAD; cdf::spit("mn.nc", mn_bytes[t]); b.read_boozmn("mn.nc"); c.transitions++;
          string w = snap_cmp(snap(b), mn_base[t], NOT_IN_MN); if (!w.empty()) { fail(string("then ") + opname[12 + t] + ": " + w); break; }
          b.write_boozmn("out.nc"); cdf::spit("mn.nc", mn_bytes[t]); w = same_contents("out.nc", "mn.nc"); if (!w.empty()) fail(string("then ") + opname[12 + t] + ", write: " + w);
        }
      } catch (std::exception& ex) { fail("final " + std::to_string(f) + ": unexpected exception: " + ex.what()); }
    }
    c.state(sh);
  } }
}

// Every pair of settings one after the other: on one object, with another object used in between, on copies of the object.
static void c07_pairs(Ctx& c) {
  using namespace hist; Quiet q; setup();
  struct S { int mb, nb; vector<int> sf; };
  static const char* how_n[] = {"same object", "another object in between", "copy of the object", "assigned to a used object", "original after a copy was used"};
  for (int k : {0, 3, 5}) {
    vector<S> st; for (int mb : c.thorough ? vector<int>{1, 2, 3, 4, 6, 8, 12} : vector<int>{1, 2, 3, 6}) for (int nb : c.thorough ? vector<int>{0, 1, 2, 3, 5} : vector<int>{0, 1, 3}) for (auto& sf : selections(nin(k))) st.push_back({mb, nb, sf});
    for (auto& x : st) for (auto& y : st) for (int how = 0; how < 5; how++) {
      if (!c.next()) continue;
      std::ostringstream d; d << opname[k] << ": " << x.mb << "," << x.nb << " surfaces"; for (int i : x.sf) d << ' ' << i; d << "; then " << y.mb << "," << y.nb << " surfaces"; for (int i : y.sf) d << ' ' << i; d << "; " << how_n[how];
      c.begin(d.str()); c.nontrivial++; c.state(hash_str(c.desc));
      auto set = [](BX& b, const S& s) { b.mboz = s.mb; b.nboz = s.nb; b.compute_surfs = toi(s.sf); };
      auto ran = [&](BX& b, const S& s, const string& w) { string m = snap_cmp(phip_fix(snap(b)), phip_fix(base(k, s.mb, s.nb, s.sf).ran), skip_input(k), 1e-11); return m.empty() ? m : w + m; };
      string m;
      try {
        BX b; b.verbose = 0; load(b, k, "in.nc"); set(b, x); b.run(); c.transitions += 2;
        if (how == 0) { set(b, y); b.run(); m = ran(b, y, "second run: "); }
        else if (how == 1) { int k2 = k == 3 ? 0 : 3; BX a; a.verbose = 0; load(a, k2, "in2.nc"); a.mboz = y.mb; a.nboz = y.nb; a.compute_surfs = toi({1}); a.run(); c.transitions += 2; m = ran(b, x, "first object: "); set(b, y); b.run(); if (m.empty()) m = ran(b, y, "second run: "); }
        else if (how == 2) { BX a(b); set(a, y); a.run(); m = ran(a, y, "copy: "); if (m.empty()) m = ran(b, x, "original: "); }
        else if (how == 3) { BX a; a.verbose = 0; load(a, k == 3 ? 0 : 3, "in2.nc"); a.mboz = 4; a.nboz = 2; a.run(); a = b; m = ran(a, x, "assigned: "); set(a, y); a.run(); if (m.empty()) m = ran(a, y, "assigned and run: "); }
        else { BX a(b); set(a, y); a.run(); m = ran(b, x, "original: "); set(b, y); b.run(); if (m.empty()) m = ran(b, y, "original run again: "); if (m.empty()) m = ran(a, y, "copy: "); }
        c.transitions++;
      } catch (std::exception& ex) { m = string("unexpected exception: ") + ex.what(); }
      if (!m.empty()) c.fail(m);
    }
  }
}

// ---- C08 -------------------------------------------------------------------

// capture of std::cout and of everything else that goes to the terminal
struct Tty {
  int save[2], fd[2]; Quiet q;
  Tty() { fflush(stdout); fflush(stderr); for (int i = 0; i < 2; i++) { save[i] = dup(i + 1); char t[] = "ttyXXXXXX"; fd[i] = mkstemp(t); unlink(t); dup2(fd[i], i + 1); } }
  string text() { fflush(stdout); fflush(stderr); std::cerr.flush(); string r = q.s.str(); q.s.str(""); for (int i = 0; i < 2; i++) { off_t n = lseek(fd[i], 0, SEEK_END); if (n > 0) { string b(n, 0); if (pread(fd[i], &b[0], n, 0) == n) r += b; if (ftruncate(fd[i], 0)) {} lseek(fd[i], 0, SEEK_SET); } } return r; }
  ~Tty() { fflush(stdout); fflush(stderr); for (int i = 0; i < 2; i++) { dup2(save[i], i + 1); close(save[i]); close(fd[i]); } }
};

struct Row { int thread, js_b, js; double v[2][6]; };
static bool number(const string& s, double& x) { char* e; x = strtod(s.c_str(), &e); return !s.empty() && !*e; }
static vector<string> split(const string& l) { std::istringstream i(l); vector<string> r; string t; while (i >> t) r.push_back(t); return r; }
// rows of the accuracy table; a message if they are broken
static string parse_rows(const string& text, vector<Row>& rows) {
  std::istringstream in(text); string l; bool open = false; Row r;
  while (std::getline(in, l)) {
    auto t = split(l); double x[10]; bool first = t.size() == 10 && t[3] == "0", second = t.size() == 7 && t[0] == "pi";
    if (first) for (int i = 0; i < 10; i++) first = first && number(t[i], x[i]);
    if (open && !second) return "accuracy entry is not followed by its second line but by \"" + l + "\"";
    if (first) { r.thread = x[0]; r.js_b = x[1]; r.js = x[2]; for (int i = 0; i < 6; i++) r.v[0][i] = x[4 + i]; open = true; continue; }
    if (second) { if (!open) return "second line of an accuracy entry without the first"; for (int i = 0; i < 6; i++) if (!number(t[1 + i], r.v[1][i])) return "no number in \"" + l + "\""; rows.push_back(r); open = false; }
  }
  return open ? "incomplete accuracy entry" : "";
}

static string check_rows(const string& text, const Eq& e, BX& b, bool ordered) {
  vector<Row> rows; string m = parse_rows(text, rows); if (!m.empty()) return m;
  std::ostringstream o; o.precision(15);
  if (rows.size() != e.surfs.size()) { o << rows.size() << " accuracy entries for " << e.surfs.size() << " surfaces"; return o.str(); }
  std::set<int> seen;
  for (size_t i = 0; i < rows.size(); i++) {
    Row& r = rows[i];
    if (r.js_b < 0 || r.js_b >= (int)e.surfs.size() || !seen.insert(r.js_b).second || (ordered && r.js_b != (int)i)) { o << "accuracy entry " << i << " is for js_b=" << r.js_b; return o.str(); }
    if (r.js != e.surfs[r.js_b]) { o << "accuracy entry of js_b=" << r.js_b << " is for js=" << r.js; return o.str(); }
    Surf f = ref_surface(e, r.js, 2, 2);
    bool three_d = e.nboz == 0; if (three_d) { three_d = false; for (int n : e.xn) three_d = three_d || n; for (int n : e.xnq) three_d = three_d || n; }
    for (int z = 0; z < 2; z++) for (int t = 0; t < 2; t++) {
      if (z == 1 && three_d) continue;     // the grid has no such point
      int p = t * 2 + z; double in = f.bmod[p], sum = 0;
      for (int j = 0; j < b.mnboz; j++) { double a = b.xm_b[j] * f.thB[p] - b.xn_b[j] * f.zeB[p]; sum += b.bmnc_b(j, r.js_b) * cos(a); if (b.asym) sum += b.bmns_b(j, r.js_b) * sin(a); }
      double err = std::fabs(sum - in) / std::max(sum, in), want[3] = {in, sum, err};
      for (int k = 0; k < 3; k++) { double g = r.v[z][3 * t + k]; if (!(std::fabs(g - want[k]) <= 5.1e-4 * std::fabs(want[k]) + (k == 2 ? 2e-13 : 1e-12 * std::fabs(in)))) { const char* nm[] = {"|B| input", "|B| Boozer", "error"}; o << nm[k] << " at theta=" << (t ? "pi" : "0") << " zeta=" << (z ? "pi/nfp" : "0") << " js_b=" << r.js_b << " is printed as " << g << ", actual value " << want[k]; return o.str(); } }
    }
  }
  return "";
}

static void c08_console(Ctx& c) {
  for (int ns = 2; ns <= (c.thorough ? 7 : 5); ns++) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3, 5}) for (int mpol : {1, 2, 3}) for (int ntor : {0, 1, 2}) for (int mq : {0, 2}) for (int mb : {1, 2, 5}) for (int nb : {0, 1, 2}) for (int flux = 0; flux < 2; flux++) {
    auto sels = selections(ns - 1);
    int lo = c.thorough ? 0 : (ns + mb + nb + flux) % sels.size(), hi = c.thorough ? (int)sels.size() : lo + 1;
    for (int si = lo; si < hi; si++) {
      if (!c.next()) continue;
      auto& sel = sels[si]; Case k{ns, asym, nfp, mpol, ntor, mb, nb, flux, si};
      c.begin("console " + cdesc(k, sel) + " mpol_nyq=" + std::to_string(mq)); c.state(hash_str(c.desc)); c.nontrivial++;
      Vmec v = make_vmec(ns, asym, nfp, mpol, ntor, mq, ntor, true, 900 + si);
      Snap s0[3]; string bytes0;
      for (int vb = 0; vb <= 3; vb++) {
        string m; BX b; b.verbose = vb;
        string txt[3];
        { Tty t;
          try {
            cdf::write("wout_v.nc", wout_file(v, 2.5)); b.read_wout("wout_v.nc", flux); c.transitions++; txt[0] = t.text(); Snap a = snap(b);
            b.mboz = mb; b.nboz = nb; b.compute_surfs = toi(sel); b.run(); c.transitions++; txt[1] = t.text(); Snap d = snap(b);
            b.write_boozmn("boozmn_v.nc"); c.transitions++; txt[2] = t.text(); string by = cdf::slurp("boozmn_v.nc");
            BX g; g.verbose = vb; g.read_boozmn("boozmn_v.nc"); c.transitions++; txt[2] += t.text(); Snap e = snap(g);
            if (vb == 0) { s0[0] = a; s0[1] = d; s0[2] = e; bytes0 = by; if (!txt[0].empty() || !txt[1].empty() || !txt[2].empty()) m = "verbosity 0 prints: " + (txt[0] + txt[1] + txt[2]).substr(0, 200); }
            else {
              string n = "verbosity " + std::to_string(vb) + ": ";
              if (m.empty() && !(m = snap_cmp(a, s0[0], {"verbose"}, 1e-13)).empty()) m = n + "after loading: " + m;
              if (m.empty() && !(m = snap_cmp(d, s0[1], {"verbose"}, 1e-12)).empty()) m = n + "after run: " + m;
              if (m.empty() && !(m = snap_cmp(e, s0[2], {"verbose"}, 1e-12)).empty()) m = n + "after reading: " + m;
              if (m.empty() && by != bytes0) { cdf::spit("boozmn_v0.nc", bytes0); string w = same_contents("boozmn_v0.nc", "boozmn_v.nc"); if (!w.empty() && w.find("at element") == string::npos) m = n + "file: " + w; }
              if (m.empty() && b.verbose != vb) m = "verbose has changed";
            }
          } catch (std::exception& ex) { m = string("unexpected exception: ") + ex.what(); }
        }
        if (m.empty() && vb) { Eq e = get_inputs(b); m = check_rows(txt[1], e, b, false); if (!m.empty()) m = "verbosity " + std::to_string(vb) + ": " + m; }
        if (!m.empty()) { c.fail(m); break; }
      }
    }
  }
}

// Input set directly: signs of G, I and iota, spellings of the mode lists, magnitudes of the field, many surfaces.
static void c08_direct(Ctx& c) {
  int nsig = sizeof(SIGNS) / sizeof(SIGNS[0]);
  struct Sh { int asym, nfp, mpol, ntor, mq, nq, mb, nb; };
  Sh shs[] = {{0, 1, 2, 1, 2, 1, 3, 1}, {1, 1, 2, 1, 2, 1, 3, 1}, {0, 3, 2, 2, 3, 2, 4, 3}, {1, 3, 2, 2, 3, 2, 4, 3}, {0, 2, 4, 0, 5, 0, 6, 0}, {1, 2, 4, 0, 5, 0, 6, 0}, {0, 1, 3, 0, 4, 0, 5, 2}, {1, 5, 1, 2, 1, 2, 1, 4}, {1, 2, 3, 1, 0, 0, 2, 2}, {0, 4, 1, 0, 3, 2, 9, 5}, {1, 2, 3, 2, 3, 2, 24, 0}, {0, 3, 2, 1, 5, 4, 30, 9}};
  auto one = [&](Eq e, int vb, const string& what) {
    if (!c.next()) return;
    c.begin(what + " " + e.str() + " verbosity " + std::to_string(vb)); c.state(mix(hash_str(c.desc) ^ e.hash())); c.nontrivial++;
    string m;
    { BX q, b; string t0, t1; e.verbose = 0; set_inputs(q, e); e.verbose = vb; set_inputs(b, e);
      { Tty t; try { q.run(); t0 = t.text(); b.run(); t1 = t.text(); c.transitions += 2; } catch (std::exception& ex) { m = string("unexpected exception: ") + ex.what(); } }
      if (m.empty() && !t0.empty()) m = "verbosity 0 prints: " + t0.substr(0, 200);
      if (m.empty()) m = snap_cmp(snap(b), snap(q), {"verbose"}, 1e-12);
      if (m.empty() && b.verbose != vb) m = "verbose has changed";
      if (m.empty()) m = check_rows(t1, e, b, false);
    }
    if (!m.empty()) c.fail(m);
  };
  int vbs[] = {1, 2, 3, 7};
  // signs and spellings
  for (auto& h : shs) for (int sg = 0; sg < nsig; sg++) for (int sp = 0; sp < NSPELL; sp++) for (int seed = 0; seed < (c.thorough ? 4 : 1); seed++) {
    Eq e = shape(h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, 3, h.mb, h.nb); fill_generic(e, 700 + seed, SIGNS[sg].G, SIGNS[sg].I, SIGNS[sg].iota, (sg == 9 ? 0.006 : 0.02) / (1 + 0.3 * h.nfp));
    e = respell(e, sp); e.surfs = sg % 2 ? vector<int>{2, 0, 1, 2} : vector<int>{1};
    std::ostringstream o; o << "G=" << SIGNS[sg].G << " I=" << SIGNS[sg].I << " iota=" << SIGNS[sg].iota << " " << spell_name[sp] << " seed " << seed;
    one(e, vbs[(sg + sp) % 4], o.str());
  }
  // resolutions
  for (int a = 0; a < 2; a++) for (int nfp : {1, 4}) for (int ntor : {0, 2}) for (int mb = 1; mb <= (c.thorough ? 40 : 16); mb++) for (int nb = 0; nb <= (c.thorough ? 16 : 8); nb++) {
    Eq e = shape(a, nfp, 2, ntor, 3, ntor, 2, mb, nb); fill_generic(e, 41 + mb, 1.6, 0.2, 0.55, 0.02); e.surfs = {1, 0}; one(e, 1 + (mb + nb) % 3, "resolution");
  }
  // magnitude of the field and scale of the device
  for (auto& h : {shs[1], shs[3], shs[5]}) for (double f : {1e-30, 1e-12, 1e-3, 1.0, 12.0, 1e5, 1e30}) for (double g : {1e-12, 1.0, 1e20}) {
    Eq e = shape(h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, 3, h.mb, h.nb); fill_generic(e, 9, 1.8, 0.3, 0.6, 0.02); e.surfs = {0, 2};
    for (int k = 0; k < NIN; k++) for (auto& x : e.a[k]) x *= k == BMNC || k == BMNS ? f : k == BSUBU || k == BSUBV || k == BSUBUS || k == BSUBVS ? g : 1;
    std::ostringstream o; o << "|B| times " << f << ", covariant components times " << g; one(e, 1, o.str());
  }
  // many surfaces, in every kind of order
  for (auto& h : {shs[0], shs[3]}) for (int ns : {1, 2, 9, 10, 11, 64, 99, 100, 101, 130}) for (int how = 0; how < 6; how++) {
    Eq e = shape(h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, ns, 2, 1); fill_generic(e, 19, 1.8, 0.3, 0.6, 0.02); e.surfs.clear();
    for (int i = 0; i < ns; i++) { int s = how == 0 ? i : how == 1 ? ns - 1 - i : how == 2 ? (7 * i + 3) % ns : how == 3 ? ns - 1 : how == 4 ? i / 2 : 0; e.surfs.push_back(s); if (how == 5) break; }
    if (how == 5) e.surfs = {ns - 1};
    std::ostringstream o; o << "order " << how; one(e, 1 + how % 2, o.str());
  }
  // surface numbers of up to five digits
  for (auto& h : {shs[0], shs[3]}) for (int ns : {998, 1000, 1001, 1200, 9999, 10001}) {
    Eq e = shape(h.asym, h.nfp, 1, 0, 1, 0, ns, 2, 1); fill_generic(e, 23, 1.8, 0.3, 0.6, 0.02); e.surfs = {ns - 1, ns / 2, 0, ns - 2};
    one(e, 1, "number of surfaces");
  }
}

// ---- C14 -------------------------------------------------------------------

static const char SENTINEL[] = "an existing file that has to stay as it is";
enum Want { REJECT, ACCEPT };

// Carries out load, run, write, read with an output file in place; every step may reject.
static void c14_judge(Ctx& c, Want want, const std::function<void(BX&)>& load, const std::function<void(BX&)>& between = nullptr, bool do_run = true) {
  c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
  Quiet q; cdf::spit("out14.nc", SENTINEL); bool rejected = false; string where;
  { BX b; b.verbose = 2;
    try { load(b); if (between) between(b); if (do_run) b.run(); c.transitions += 2; b.write_boozmn("out14.nc"); BX g; g.verbose = 2; g.read_boozmn("out14.nc"); }
    catch (std::exception& e) { rejected = true; where = e.what(); } catch (...) { c.fail("something other than a std::exception is thrown"); return; } }
  if (want == REJECT && !rejected) { c.fail("the defect is not reported"); return; }
  if (want == ACCEPT && rejected) { c.fail("valid input is rejected: " + where); return; }
  if (rejected && cdf::slurp("out14.nc") != SENTINEL) c.fail("the existing output file has been overwritten");
}

static int newdim(cdf::File& f, size_t len) { for (size_t i = 0; i < f.dims.size(); i++) if (f.dims[i].len == len) return i; return f.adddim("extra_" + std::to_string(len), len); }

struct Mut { string name; Want want; std::function<void(cdf::File&)> f; };

static void drop(cdf::File& f, const string& n) { vector<cdf::Var> k; for (auto& x : f.vars) if (x.name != n) k.push_back(x); f.vars = k; }
// defects of one variable
static void var_muts(vector<Mut>& r, const cdf::File& f, const string& n, bool needed) {
  const cdf::Var* v = f.var(n); if (!v) return; Want w = needed ? REJECT : ACCEPT; size_t nd = v->dims.size();
  r.push_back({"without " + n, w, [=](cdf::File& g) { drop(g, n); }});
  r.push_back({n + " renamed", w, [=](cdf::File& g) { g.var(n)->name = n + "_"; }});
  r.push_back({n + " as text", w, [=](cdf::File& g) { auto* x = g.var(n); x->type = cdf::CHAR; x->text = string(g.count(*x), '1'); }});
  r.push_back({n + " with another dimension", w, [=](cdf::File& g) { auto x = *g.var(n); x.dims.insert(x.dims.begin(), newdim(g, 2)); x.v.insert(x.v.end(), x.v.begin(), x.v.end()); *g.var(n) = x; }});
  for (size_t d = 0; d < nd; d++) for (int o : {-1, 1, 40}) {
    long len = (long)f.dims[v->dims[d]].len + o; if (len < 1) continue;
    r.push_back({n + " dimension " + std::to_string(d) + " of length " + std::to_string(len), w, [=](cdf::File& g) { auto x = *g.var(n); x.dims[d] = newdim(g, len); x.v.resize(g.count(x), 0.25); *g.var(n) = x; }});
  }
  if (nd && f.count(*v) > 1) r.push_back({n + " as scalar", w, [=](cdf::File& g) { auto* x = g.var(n); x->dims.clear(); x->v.resize(1); }});
  if (!nd) r.push_back({n + " as array of 1", ACCEPT, [=](cdf::File& g) { auto* x = g.var(n); x->dims = {newdim(g, 1)}; }});
}
static void set_val(vector<Mut>& r, const string& n, size_t i, double x, Want w) { r.push_back({n + "[" + std::to_string(i) + "]=" + std::to_string(x), w, [=](cdf::File& g) { auto* v = g.var(n); if (v->type != cdf::DOUBLE && std::fabs(x) > 3e4) v->type = cdf::DOUBLE; v->v[i] = x; }}); }

static void c14_wout(Ctx& c) {
  struct Sh { int ns, asym, nfp, mpol, ntor, mq, nq; };
  vector<Sh> shs = {{4, 0, 2, 2, 1, 2, 1}, {4, 1, 2, 2, 1, 2, 1}, {2, 0, 1, 1, 0, 0, 0}, {3, 1, 3, 1, 0, 1, 2}, {5, 0, 1, 2, 1, 1, 1}, {5, 1, 1, 3, 0, 2, 0}, {2, 1, 4, 2, 2, 3, 3}};
  if (c.thorough) for (int ns = 2; ns <= 5; ns++) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 2, 5}) for (int mpol : {1, 2, 4}) for (int ntor : {0, 1, 2}) for (int mq : {0, 1, 3}) for (int nq : {0, 1, 3}) shs.push_back({ns, asym, nfp, mpol, ntor, mq, nq});
  for (auto& h : shs) for (int flux = 0; flux < 2; flux++) {
    Vmec v = make_vmec(h.ns, h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, true, 51); cdf::File f = wout_file(v, 3.0); const Eq& e = v.e;
    vector<Mut> r; r.push_back({"unchanged", ACCEPT, [](cdf::File&) {}});
    std::set<string> need = {"lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect", "iotas", "xm", "xn", "xm_nyq", "xn_nyq"};
    for (int k = 0; k < NIN; k++) if (!in_asym(k) || h.asym) need.insert(in_name[k]);
    if (flux) for (const char* n : {"phipf", "chi", "pres", "phi"}) need.insert(n);
    for (auto& x : f.vars) if (x.type != cdf::CHAR) var_muts(r, f, x.name, need.count(x.name));
    if (!h.asym) { // antisymmetric data in a symmetric file does not matter
      r.push_back({"with antisymmetric variables of the wrong size", ACCEPT, [](cdf::File& g) { for (int k = RMNS; k < NIN; k++) g.add(in_name[k], cdf::DOUBLE, {newdim(g, 3)}, {1, 2, 3}); }});
      set_val(r, "lasym__logical__", 0, 1, REJECT);
    } else set_val(r, "lasym__logical__", 0, 0, ACCEPT);
    for (double x : {-1., 0., 1., (double)h.ns - 1, (double)h.ns + 1, 1000.}) if (x != h.ns) set_val(r, "ns", 0, x, REJECT);
    for (double x : {-2., 0.}) set_val(r, "nfp", 0, x, REJECT);
    if (h.ntor || h.nq) set_val(r, "nfp", 0, h.nfp * 7, REJECT);
    for (const char* n : {"mnmax", "mnmax_nyq"}) { double m = f.var(n)->v[0]; for (double x : {-1., 0., m - 1, m + 1, 2 * m}) set_val(r, n, 0, x, REJECT); }
    for (double x : {-1., 0., (double)h.mpol - 1}) set_val(r, "mpol", 0, x, REJECT);
    for (double x : {-1., (double)h.ntor - 1, (double)h.ntor + 1}) set_val(r, "ntor", 0, x, REJECT);
    auto modes = [&](const char* xm, const char* xn, const vector<int>& m, const vector<int>& n, int mmax, int nmax) {
      int K = m.size(); std::set<int> at = {0, 1, K / 2, K - 1};
      for (int j : at) { if (j >= K) continue;
        set_val(r, xm, j, -1, REJECT); if (j < K - 1) set_val(r, xm, j, mmax + 1, REJECT); set_val(r, xm, j, 1e12, REJECT); if (j < K - 1) set_val(r, xm, j, 1 << 30, REJECT);
        if (h.nfp > 1) { set_val(r, xn, j, n[j] + 1, REJECT); set_val(r, xn, j, n[j] - 1, REJECT); }
        if (j < K - 1) { set_val(r, xn, j, (nmax + 1) * h.nfp, REJECT); set_val(r, xn, j, -(nmax + 1) * h.nfp, REJECT); }
        set_val(r, xn, j, -3e9, REJECT); }
      if (mmax > 0) set_val(r, xm, 0, 1, REJECT);
      if (nmax > 0) set_val(r, xn, 0, h.nfp, REJECT);
    };
    modes("xm", "xn", e.xm, e.xn, e.mpol - 1, e.ntor); modes("xm_nyq", "xn_nyq", e.xmq, e.xnq, e.mpolq, e.ntorq);
    for (auto& m : r) {
      if (!c.next()) continue;
      std::ostringstream d; d << "wout ns=" << h.ns << " " << e.str() << " flux=" << flux << ": " << m.name; c.begin(d.str());
      cdf::File g = f; m.f(g); cdf::write("wout14.nc", g);
      c14_judge(c, m.want, [&](BX& b) { b.read_wout("wout14.nc", flux); b.mboz = 2; b.nboz = h.ntor ? 1 : 0; });
    }
    // incomplete header, any length; other contents
    string by = cdf::encode(f); size_t data = by.size(); for (auto& x : f.vars) data -= (f.count(x) * cdf::tsize(x.type) + 3) / 4 * 4;
    for (size_t n = 0; n < data; n += (c.thorough ? 1 : (h.ns == 4 ? 3 : 61))) { if (!c.next()) continue; c.begin("wout cut to " + std::to_string(n) + " bytes, " + e.str()); cdf::spit("wout14.nc", by.substr(0, n)); c14_judge(c, REJECT, [&](BX& b) { b.read_wout("wout14.nc", flux); b.mboz = 2; b.nboz = 0; }); }
  }
  const char* bad[] = {"no_such_file.nc", "no_such_directory/x.nc", ".", ""};
  for (auto p : bad) for (int t = 0; t < 2; t++) { if (!c.next()) continue; c.begin(string("reading path \"") + p + "\""); c14_judge(c, REJECT, [&](BX& b) { t ? b.read_wout(p) : b.read_boozmn(p); }, nullptr, t); }
  for (auto s : {"", "CDF", "CDF\x01", "\x89HDF\r\n\x1a\n", "hello world, this is not NetCDF"}) for (int t = 0; t < 2; t++) { if (!c.next()) continue; c.begin(string("file containing \"") + s + "\""); cdf::spit("x14.nc", s); c14_judge(c, REJECT, [&](BX& b) { t ? b.read_wout("x14.nc") : b.read_boozmn("x14.nc"); }, nullptr, t); }
}

static void c14_boozmn(Ctx& c) {
  for (int asym = 0; asym < 2; asym++) for (int ns = 2; ns <= (c.thorough ? 7 : 5); ns++) for (int mb = 1; mb <= 3; mb++) for (int nb = 0; nb <= 1; nb++) {
    auto sels = selections(ns - 1);
    for (size_t si = 0; si < sels.size(); si++) {
      if (!c.thorough && (si + mb + nb + ns) % 3) continue;
      static cdf::File f; static i64 made = -1; i64 key = (((asym * 10 + ns) * 10 + mb) * 10 + nb) * 10 + si;
      if (made != key) { Quiet q; BX b; Vmec v = make_vmec(ns, asym, 2, 2, 1, 2, 1, true, 7); prepare(b, v, {ns, asym, 2, 2, 1, mb, nb, 1, 0}, sels[si], "m14"); b.run(); b.write_boozmn("m14.nc"); f = cdf::read("m14.nc"); made = key; }
      int nj = sels[si].size(), K = f.dims[f.dim("mn_modes")].len;
      vector<Mut> r; r.push_back({"unchanged", ACCEPT, [](cdf::File&) {}});
      std::set<string> opt = {"rmax_b", "rmin_b", "betaxis_b", "beta_b", "version"};
      std::set<string> may = {"aspect_b", "chi_b"};      // may be missing, but not be wrong
      for (auto& x : f.vars) { if (opt.count(x.name)) { if (x.name != "version") var_muts(r, f, x.name, false); continue; } size_t at = r.size(); var_muts(r, f, x.name, true); if (may.count(x.name)) { r[at].want = ACCEPT; r[at + 1].want = ACCEPT; } }
      r.push_back({"without version", ACCEPT, [](cdf::File& g) { drop(g, "version"); }});
      for (int j = 0; j < nj; j++) for (double x : {-5., 0., 1., ns + 1., ns + 2., 2e9}) set_val(r, "jlist", j, x, REJECT);
      set_val(r, "jlist", 0, 2, ACCEPT); set_val(r, "jlist", nj - 1, ns, ACCEPT);
      for (double x : {-1., 0., K - 1., K + 1.}) set_val(r, "mnboz_b", 0, x, REJECT);
      set_val(r, "ns_b", 0, ns + 1, REJECT); set_val(r, "ns_b", 0, ns - 1, REJECT);
      set_val(r, "lasym__logical__", 0, !asym, asym ? ACCEPT : REJECT);
      for (const char* dn : {"radius", "comput_surfs"}) r.push_back({string("dimension ") + dn + " renamed", REJECT, [=](cdf::File& g) { g.dims[g.dim(dn)].name = "other"; }});
      for (auto& m : r) {
        if (!c.next()) continue;
        std::ostringstream d; d << "boozmn asym=" << asym << " ns=" << ns << " mboz=" << mb << " nboz=" << nb << " surfaces"; for (int x : sels[si]) d << ' ' << x; d << ": " << m.name; c.begin(d.str());
        cdf::File g = f; m.f(g); cdf::write("mn14.nc", g);
        c14_judge(c, m.want, [&](BX& b) { b.read_boozmn("mn14.nc"); }, nullptr, false);
      }
      string by = cdf::encode(f); size_t data = by.size(); for (auto& x : f.vars) data -= (f.count(x) * cdf::tsize(x.type) + 3) / 4 * 4;
      for (size_t n = 0; n < data; n += (c.thorough ? 7 : 101)) { if (!c.next()) continue; c.begin("boozmn cut to " + std::to_string(n) + " bytes"); cdf::spit("mn14.nc", by.substr(0, n)); c14_judge(c, REJECT, [&](BX& b) { b.read_boozmn("mn14.nc"); }, nullptr, false); }
    }
  }
}

static void c14_direct(Ctx& c) {
  struct Sh { int ns, asym, nfp, mpol, ntor, mq, nq; };
  vector<Sh> shs = {{4, 0, 2, 2, 1, 2, 1}, {4, 1, 2, 2, 1, 2, 1}, {2, 0, 1, 1, 0, 0, 0}, {3, 1, 3, 1, 0, 1, 2}, {5, 1, 1, 2, 1, 1, 1}};
  for (auto& h : shs) for (int flux = 0; flux < 2; flux++) {
    Vmec v = make_vmec(h.ns, h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, true, 52); v.flux = flux; const Eq& e = v.e;
    auto one = [&](const string& n, Want w, const std::function<void(BX&, booz_xform::Matrix*, booz_xform::Vector*, int&)>& mut, const std::function<void(BX&)>& after = nullptr) {
      if (!c.next()) return;
      std::ostringstream d; d << "direct ns=" << h.ns << " " << e.str() << " flux=" << flux << ": " << n; c.begin(d.str());
      c14_judge(c, w, [&](BX& b) {
        b.asym = e.asym; b.nfp = e.nfp; b.mpol = e.mpol; b.ntor = e.ntor; b.mnmax = e.mn(); b.mpol_nyq = e.mpolq; b.ntor_nyq = e.ntorq; b.mnmax_nyq = e.mnq(); b.xm = toi(e.xm); b.xn = toi(e.xn); b.xm_nyq = toi(e.xmq); b.xn_nyq = toi(e.xnq);
        booz_xform::Matrix a[NIN]; for (int k = 0; k < NIN; k++) if (!v.full[k].empty()) a[k] = tom(v.full[k], e.rows(k), v.ns);
        booz_xform::Vector p[5] = {tov(v.iotas), tov(v.phip), tov(v.chi), tov(v.pres), tov(v.phi)}; int ns = v.ns;
        if (mut) mut(b, a, p, ns);
        if (flux) b.init_from_vmec(ns, p[0], a[RMNC], a[RMNS], a[ZMNC], a[ZMNS], a[LMNC], a[LMNS], a[BMNC], a[BMNS], a[BSUBU], a[BSUBUS], a[BSUBV], a[BSUBVS], p[1], p[2], p[3], p[4]);
        else b.init_from_vmec(ns, p[0], a[RMNC], a[RMNS], a[ZMNC], a[ZMNS], a[LMNC], a[LMNS], a[BMNC], a[BMNS], a[BSUBU], a[BSUBUS], a[BSUBV], a[BSUBVS]);
        b.mboz = 3; b.nboz = h.ntor ? 1 : 0;
      }, after);
    };
    typedef booz_xform::Matrix M; typedef booz_xform::Vector V;
    one("unchanged", ACCEPT, nullptr);
    for (int k = 0; k < NIN; k++) {
      bool used = !in_asym(k) || e.asym; int R = e.rows(k);
      for (int dr : {-1, 0, 1, 9}) for (int dc : {-1, 0, 1, 9}) { if ((!dr && !dc) || R + dr < 0) continue; std::ostringstream o; o << in_name[k] << " " << R + dr << " x " << h.ns + dc; one(o.str(), used ? REJECT : ACCEPT, [=](BX&, M* a, V*, int&) { a[k].setConstant(R + dr, h.ns + dc, 0.1); }); }
      if (R != h.ns) one(string(in_name[k]) + " transposed", used ? REJECT : ACCEPT, [=](BX&, M* a, V*, int&) { a[k].setConstant(h.ns, R, 0.1); });
      one(string(in_name[k]) + " empty", used ? REJECT : ACCEPT, [=](BX&, M* a, V*, int&) { a[k].resize(0, 0); });
      // attributes changed afterwards
      for (int dr : {-1, 0, 1}) for (int dc : {-1, 0, 1}) { if ((!dr && !dc) || R + dr < 0 || h.ns - 1 + dc < 0) continue; std::ostringstream o; o << "attribute " << in_name[k] << " " << R + dr << " x " << h.ns - 1 + dc; one(o.str(), used ? REJECT : ACCEPT, nullptr, [=](BX& b) { in_ptr(b, k)->setConstant(R + dr, h.ns - 1 + dc, 0.1); }); }
      one(string("attribute ") + in_name[k] + " empty", used ? REJECT : ACCEPT, nullptr, [=](BX& b) { in_ptr(b, k)->resize(0, 0); });
    }
    for (int t = 0; t < (flux ? 5 : 1); t++) for (int d : {-1, 1, -h.ns, 7}) { if (t == 1 && d == -h.ns) continue; one(string("profile ") + std::to_string(t) + " of size " + std::to_string(h.ns + d), REJECT, [=](BX&, M*, V* p, int&) { p[t].setConstant(h.ns + d, 0.3); }); }
    for (int d : {-1, 1, 5}) one("ns=" + std::to_string(h.ns + d), REJECT, [=](BX&, M*, V*, int& ns) { ns += d; });
    for (int x : {0, 1, -3}) one("ns=" + std::to_string(x), REJECT, [=](BX&, M*, V*, int& ns) { ns = x; });
    // a grid without any half-grid surface, everything else consistent with it
    for (int x : {0, 1}) one("ns=" + std::to_string(x) + " with arrays to match", REJECT, [=](BX&, M* a, V* p, int& ns) { ns = x; for (int k = 0; k < NIN; k++) if (a[k].rows()) a[k].conservativeResize(a[k].rows(), x); for (int t = 0; t < (flux ? 5 : 1); t++) p[t].conservativeResize(x); });
    typedef int BX::*P; std::pair<const char*, P> at[] = {{"nfp", &BX::nfp}, {"mpol", &BX::mpol}, {"ntor", &BX::ntor}, {"mnmax", &BX::mnmax}, {"mpol_nyq", &BX::mpol_nyq}, {"ntor_nyq", &BX::ntor_nyq}, {"mnmax_nyq", &BX::mnmax_nyq}, {"ns_in", &BX::ns_in}};
    for (int when = 0; when < 2; when++) for (auto& p : at) for (int x : {-1, 0, -100, -101, 100, 12345}) {
      if (!when && p.second == &BX::ns_in) continue;          // set by loading
      int v0 = p.second == &BX::nfp ? e.nfp : p.second == &BX::mpol ? e.mpol : p.second == &BX::ntor ? e.ntor : p.second == &BX::mnmax ? e.mn() : p.second == &BX::mpol_nyq ? e.mpolq : p.second == &BX::ntor_nyq ? e.ntorq : p.second == &BX::mnmax_nyq ? e.mnq() : h.ns - 1;
      int val = x == -100 ? v0 - 1 : x == 100 ? v0 + 1 : x == -101 ? v0 * 2 : x; if (val == v0 || val == 12345 && p.second != &BX::mnmax && p.second != &BX::mnmax_nyq && p.second != &BX::ns_in) continue;
      bool maxi = p.second == &BX::mpol || p.second == &BX::mpol_nyq, ntors = p.second == &BX::ntor || p.second == &BX::ntor_nyq, isn = p.second == &BX::nfp;
      if (isn && val > 0) continue;       // may be consistent; below
      if (val > v0 && (maxi || (ntors && when))) continue;     // larger maximum: C20
      string n = string(p.first) + "=" + std::to_string(val) + (when ? " after loading" : "");
      if (when) one(n, REJECT, nullptr, [=](BX& b) { b.*(p.second) = val; }); else one(n, REJECT, [=](BX& b, M*, V*, int&) { b.*(p.second) = val; });
    }
    if (h.ntor || h.nq) one("nfp with which the mode numbers are not multiples", REJECT, nullptr, [=](BX& b) { b.nfp = 7; });
    // mode lists
    for (int when = 0; when < 2; when++) for (int t = 0; t < 4; t++) {
      typedef booz_xform::IntVector BX::*IV; IV ivs[] = {&BX::xm, &BX::xn, &BX::xm_nyq, &BX::xn_nyq}; IV q = ivs[t]; const char* nm[] = {"xm", "xn", "xm_nyq", "xn_nyq"}; int K = t < 2 ? e.mn() : e.mnq(), top = t == 0 ? e.mpol - 1 : t == 1 ? e.ntor * e.nfp : t == 2 ? e.mpolq : e.ntorq * e.nfp, step = t % 2 ? e.nfp : 1;
      auto put = [&](const string& n, const std::function<void(booz_xform::IntVector&)>& g) { string s = string(nm[t]) + " " + n + (when ? " after loading" : ""); if (when) one(s, REJECT, nullptr, [=](BX& b) { g(b.*q); }); else one(s, REJECT, [=](BX& b, M*, V*, int&) { g(b.*q); }); };
      put("one longer", [=](booz_xform::IntVector& x) { x.conservativeResize(K + 1); x[K] = 0; }); if (K > 1) put("one shorter", [=](booz_xform::IntVector& x) { x.conservativeResize(K - 1); }); put("empty", [](booz_xform::IntVector& x) { x.resize(0); });
      std::set<int> idx = {0, K / 2, K - 1};
      for (int j : idx) { put("too large at " + std::to_string(j), [=](booz_xform::IntVector& x) { x[j] = top + step; }); put("huge at " + std::to_string(j), [=](booz_xform::IntVector& x) { x[j] = 2147483647 / step * step; }); put("too small at " + std::to_string(j), [=](booz_xform::IntVector& x) { x[j] = t % 2 ? -top - step : -1; }); put("most negative at " + std::to_string(j), [=](booz_xform::IntVector& x) { x[j] = -(2147483647 / step) * step; }); if (t % 2 && e.nfp > 1) put("no multiple of nfp at " + std::to_string(j), [=](booz_xform::IntVector& x) { x[j] += 1; }); }
      if (t >= 2 && top) put("without m=n=0 first", [=](booz_xform::IntVector& x) { x[0] = step; });
    }
    for (const char* w : {"iota", "s_in"}) for (int d : {-1, 1, 6}) one(string("attribute ") + w + " of size " + std::to_string(h.ns - 1 + d), d == -1 && h.ns == 2 && w[0] == 's' ? ACCEPT : REJECT, nullptr, [=](BX& b) { (w[0] == 'i' ? b.iota : b.s_in).setConstant(h.ns - 1 + d, 0.4); });
    one("no surfaces at all, everything consistent with that", REJECT, nullptr, [=](BX& b) { b.ns_in = 0; b.iota.resize(0); b.s_in.resize(0); b.compute_surfs.resize(0); for (int k = 0; k < NIN; k++) if (in_ptr(b, k)->rows()) in_ptr(b, k)->resize(in_ptr(b, k)->rows(), 0); });
    one("s_in empty", ACCEPT, nullptr, [](BX& b) { b.s_in.resize(0); });
    // settings
    for (int mb : {-2147483647, -5, -1, 0}) one("mboz=" + std::to_string(mb), REJECT, nullptr, [=](BX& b) { b.mboz = mb; });
    for (int nb : {-2147483647, -5, -1}) one("nboz=" + std::to_string(nb), REJECT, nullptr, [=](BX& b) { b.nboz = nb; });
    for (int mb : {1, 2, 7}) for (int nb : {0, 1, 4}) one("mboz=" + std::to_string(mb) + " nboz=" + std::to_string(nb), ACCEPT, nullptr, [=](BX& b) { b.mboz = mb; b.nboz = nb; });
    int n = h.ns - 1;
    for (int len = 1; len <= 3; len++) for (int pos = 0; pos < len; pos++) for (int x : {-2147483647 - 1, -1, n, n + 1, 2147483647}) one("surface " + std::to_string(x) + " at " + std::to_string(pos) + " of " + std::to_string(len), REJECT, nullptr, [=](BX& b) { vector<int> s(len, 0); s[len - 1] = n - 1; s[pos] = x; b.compute_surfs = toi(s); });
    for (auto& s : selections(n)) one("valid surfaces", ACCEPT, nullptr, [=](BX& b) { b.compute_surfs = toi(s); });
    one("asym changed", e.asym ? ACCEPT : REJECT, nullptr, [=](BX& b) { b.asym = !b.asym; });
    // output
    for (const char* p : {"no_such_directory/x.nc", ".", ""}) { if (!c.next()) continue; c.begin(string("writing to \"") + p + "\""); c14_judge(c, REJECT, [&](BX& b) { Vmec w = v; b.verbose = 0; string m = c09_apply(w, b); if (!m.empty()) throw std::logic_error(m); b.mboz = 2; b.nboz = 0; b.run(); b.write_boozmn(p); }); }
  }
}

// Results at hand, then an input of the wrong size: nothing is written
static void c14_write(Ctx& c) {
  typedef booz_xform::Vector BX::*P; std::pair<const char*, P> pr[] = {{"phip", &BX::phip}, {"chi", &BX::chi}, {"pres", &BX::pres}, {"phi", &BX::phi}};
  struct Sh { int ns, asym, nfp, mpol, ntor, mq, nq; };
  vector<Sh> shs = {{4, 0, 2, 2, 1, 2, 1}, {4, 1, 2, 2, 1, 2, 1}, {2, 0, 1, 1, 0, 0, 0}, {3, 1, 3, 1, 0, 1, 2}, {12, 0, 5, 2, 1, 2, 1}};
  for (auto& h : shs) for (int flux = 0; flux < 2; flux++) for (int from_file = 0; from_file < 2; from_file++) {
    Vmec v = make_vmec(h.ns, h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, true, 52); v.flux = flux; string by;
    auto one = [&](const string& n, Want w, const std::function<void(BX&)>& mut) {
      if (!c.next()) return;
      std::ostringstream d; d << "write ns=" << h.ns << " " << v.e.str() << " flux=" << flux << (from_file ? " results from a file: " : " results of a run: ") << n; c.begin(d.str()); c.state(hash_str(c.desc)); c.nontrivial++; c.transitions++;
      Quiet q; BX b; b.verbose = 0;
      try {
        Vmec u = v; string m = c09_apply(u, b); if (!m.empty()) { c.fail(m); return; } b.verbose = 0; b.mboz = 2; b.nboz = h.ntor; b.run();
        if (from_file) { b.write_boozmn("src14.nc"); BX g; g.verbose = 0; g.read_boozmn("src14.nc"); b = g; }
        mut(b);
      } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); return; }
      cdf::spit("out14.nc", SENTINEL); bool ok = true; string what;
      try { b.write_boozmn("out14.nc"); } catch (std::exception& ex) { ok = false; what = ex.what(); }
      if (w == ACCEPT && !ok) c.fail("rejected: " + what);
      if (w == ACCEPT && ok && cdf::slurp("out14.nc") == SENTINEL) c.fail("accepted, but nothing is written");
      if (w == REJECT && ok) c.fail("accepted");
      if (!ok && cdf::slurp("out14.nc") != SENTINEL) c.fail("rejected, but the existing file has been overwritten");
    };
    int n = h.ns;
    one("unchanged", ACCEPT, [](BX&) {});
    for (int d : {-1, 1, -n, 7, 1000}) for (int set = 1; set < 16; set++) {
      // without fluxes, chi, pres, and phi are not used
      std::ostringstream o; o << "size " << n + d << " of"; for (int t = 0; t < 4; t++) if (set >> t & 1) o << " " << pr[t].first;
      bool has = flux || from_file, none = set & 1 ? d == -n : !has;   // is there no phip in the end
      one(o.str(), none ? ACCEPT : REJECT, [=](BX& b) { for (int t = 0; t < 4; t++) if (set >> t & 1) (b.*pr[t].second).setConstant(n + d, 0.3); });
    }
    if (!flux) one("fluxes given", ACCEPT, [=](BX& b) { for (auto& x : pr) (b.*x.second).setConstant(n, 0.3); });
    for (int d : {-1, 1, -n + 1, 6}) one("size " + std::to_string(n - 1 + d) + " of iota", REJECT, [=](BX& b) { b.iota.setConstant(n - 1 + d, 0.4); });
    for (int d : {-1, 1, -n + 1, 6}) one(std::to_string(n - 1 + d) + " surfaces selected", REJECT, [=](BX& b) { vector<int> s(n - 1 + d, 0); b.compute_surfs = toi(s); });
    if (!h.asym) one("asym set", REJECT, [](BX& b) { b.asym = true; });
  }
}

// Every sequence of calls: calls made too early are rejected, others accepted
static void c14_order(Ctx& c) {
  static const char* nm[] = {"read_wout", "read_boozmn", "run", "write", "select other surfaces", "resolution 2,1", "init_from_vmec", "set fluxes of wrong size"};
  const int N = 8; int L = c.thorough ? 6 : 4; string wout, mn; Vmec v = make_vmec(4, 1, 2, 2, 1, 2, 1, true, 3);
  for (int len = 1; len <= L; len++) { i64 tot = 1; for (int i = 0; i < len; i++) tot *= N; for (i64 code = 0; code < tot; code++) {
    if (!c.next()) continue;
    Quiet q;
    if (wout.empty()) { wout = cdf::encode(wout_file(v, 2)); cdf::spit("wo14.nc", wout); BX b; b.verbose = 0; b.read_wout("wo14.nc", true); b.mboz = 2; b.nboz = 0; b.compute_surfs = toi({1, 2}); b.run(); b.write_boozmn("bo14.nc"); mn = cdf::slurp("bo14.nc"); }
    std::ostringstream d; d << "calls"; i64 t = code; vector<int> ops; for (int i = 0; i < len; i++) { ops.push_back(t % N); d << " [" << nm[t % N] << "]"; t /= N; } c.begin(d.str()); c.nontrivial++;
    cdf::spit("wo14.nc", wout); cdf::spit("bo14.nc", mn); cdf::spit("out14.nc", SENTINEL); bool written = false;
    BX b; b.verbose = 0;
    // model: inputs present; results present for nres surfaces; selection size; sizes of fluxes ok; -1 = not decided here
    int inputs = 0, results = 0, nsel = 0, flux_ok = 1, in_ns = 0, mixed = 0, ever = 0;
    for (int i = 0; i < len; i++) {
      int op = ops[i], want = 1; bool ok = true; string what;   // want: 1 accept, 0 reject, -1 undecided
      if (op == 2) want = mixed ? -1 : inputs ? 1 : 0;
      if (op == 3) want = !results ? 0 : results != nsel ? 0 : !flux_ok ? 0 : mixed ? -1 : results == nsel && in_ns == 3 ? 1 : -1;
      try {
        c.transitions++;
        switch (op) {
        case 0: b.read_wout("wo14.nc", true); inputs = ever = 1; nsel = 3; flux_ok = 1; mixed = results ? 1 : 0; in_ns = 3; break;
        case 1: b.read_boozmn("bo14.nc"); results = 2; nsel = 2; flux_ok = 1; in_ns = 3; mixed = ever; inputs = 0; break;
        case 2: b.run(); if (want == 1) { results = nsel; mixed = 0; in_ns = 3; } else { results = b.ns_b; mixed = 1; } break;
        case 3: b.write_boozmn("out14.nc"); written = true; break;
        case 4: b.compute_surfs = toi({0}); nsel = 1; if (results == 1) mixed = 1; break;
        case 5: b.mboz = 2; b.nboz = 1; if (results) mixed = 1; break;
        case 6: { Vmec w = v; w.flux = false; string m = c09_apply(w, b); if (!m.empty()) { c.fail(m); i = len; } b.verbose = 0; inputs = ever = 1; nsel = 3; flux_ok = 1; mixed = results ? 1 : 0; in_ns = 3; break; }
        case 7: b.phip = tov({1, 2}); flux_ok = 0; break;
        }
      } catch (std::exception& ex) { ok = false; what = ex.what(); if (op == 2 && want != 0) mixed = 1; }
      if (want == 1 && !ok) { c.fail(string("call ") + std::to_string(i + 1) + " is rejected: " + what); break; }
      if (want == 0 && ok) { c.fail(string("call ") + std::to_string(i + 1) + " made too early is accepted"); break; }
    }
    if (!written && cdf::slurp("out14.nc") != SENTINEL) c.fail("the existing output file has been overwritten");
    c.state(snap_hash(snap(b)));
  } }
}

// ---- C15 -------------------------------------------------------------------

static void c15_shapes(Ctx& c, const std::function<void(const Vmec&, const Case&, const vector<int>&, int)>& f) {
  // full mode lists; the selection, verbosity and Nyquist resolution take turns in the quick tier
  i64 i = 0;
  for (int ns = 2; ns <= (c.thorough ? 7 : 5); ns++) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 5}) for (int mpol = 1; mpol <= 4; mpol++) for (int ntor = 0; ntor <= 3; ntor++) for (int mb : {1, 2, 3, 6}) for (int nb = 0; nb <= 3; nb++) for (int flux = 0; flux < 2; flux++) {
    auto sels = selections(ns - 1);
    for (int mq = 0; mq <= 4; mq++) for (int nq = 0; nq <= 3; nq++) {
      i++;
      if (!c.thorough && (mq * 7 + nq * 3 + mpol + ntor + mb + nb + ns) % 11) continue;
      if (c.thorough && (mq * 7 + nq * 3 + mpol + ntor + mb + nb + ns) % 3) continue;
      if (!c.next()) continue;
      int sel = i % sels.size(), vb = (i / 7) % 3;
      f(make_vmec(ns, asym, nfp, mpol, ntor, mq, nq, flux, i % 50), {ns, asym, nfp, mpol, ntor, mb, nb, flux, sel}, sels[sel], vb);
    }
  }
  // sparse and minimal mode lists: every subset of a small list that keeps the first mode (and the last, which tells the resolution)
  for (int ns : {2, 3, 4}) for (int asym = 0; asym < 2; asym++) for (int nfp : {1, 3}) for (int which = 0; which < 2; which++) for (int sub = 0; sub < 128; sub++) for (int vb = 0; vb < 3; vb++) {
    Vmec v = make_vmec(ns, asym, nfp, 3, 1, 2, 1, true, 21); Eq& e = v.e; int K = which ? e.mnq() : e.mn(); // 8 modes each
    if (!c.next()) continue;
    vector<int> keep; for (int j = 0; j < K; j++) if (j == 0 || (j < 7 && (sub >> (j - 1)) & 1) || j == K - 1 && (sub & 64)) keep.push_back(j);
    auto &xm = which ? e.xmq : e.xm, &xn = which ? e.xnq : e.xn; vector<int> m2, n2; for (int j : keep) { m2.push_back(xm[j]); n2.push_back(xn[j]); }
    for (int k = 0; k < NIN; k++) if (in_nyq(k) == (which == 1) && !v.full[k].empty()) { vector<double> d; for (int s = 0; s < ns; s++) for (int j : keep) d.push_back(v.full[k][j + K * s]); v.full[k] = d; }
    xm = m2; xn = n2; int mm = 0, nn = n2.back() / nfp; bool ok = nn >= 0; for (size_t j = 0; j < m2.size(); j++) { mm = std::max(mm, m2[j]); ok = ok && std::abs(n2[j] / nfp) <= nn; }
    if (!ok) { c.count("mode_lists_not_ordered_as_vmec"); continue; }
    if (which) { e.mpolq = mm; e.ntorq = nn; if (m2.back() != mm) continue; } else { e.mpol = mm + 1; e.ntor = nn; }
    f(v, {ns, asym, nfp, e.mpol, e.ntor, 1 + sub % 3, sub % 2, 1, 0}, selections(ns - 1)[0], vb);
  }
}

static void c15_chain(Ctx& c) {
  FILE* hf = c.out.empty() ? nullptr : fopen((c.out + ".hashes").c_str(), "w");
#ifdef VF_MALLOC
  const int fills = 3; static const int pat[] = {0x3D, 0xD5, 0xFF};
#else
  const int fills = 1; static const int pat[] = {0};
#endif
  c15_shapes(c, [&](const Vmec& v, const Case& k, const vector<int>& sel, int vb) {
    std::ostringstream d; d << "chain " << cdesc(k, sel) << " mpol_nyq=" << v.e.mpolq << " ntor_nyq=" << v.e.ntorq << " modes " << v.e.mn() << "," << v.e.mnq() << " verbose=" << vb;
    c.begin(d.str()); c.state(hash_str(c.desc)); c.nontrivial++;
    Quiet q; Snap s[3][4]; string by[3][2], txt[3]; string p = "wout_15.nc"; cdf::write(p, wout_file(v, 3.75));
    for (int t = 0; t < fills; t++) {
      q.s.str(""); std::cout.copyfmt(std::ios(nullptr));
      if (fills > 1) set_fill(pat[t]);
      BX* b = nullptr; BX* g = nullptr;
      try {
        b = fresh(); b->verbose = vb; b->read_wout(p, k.flux); s[t][0] = snap(*b);
        if (fills > 1) fill_stack(pat[t]);
        b->mboz = k.mb; b->nboz = k.nb; b->compute_surfs = toi(sel); b->run(); s[t][1] = snap(*b);
        if (fills > 1) fill_stack(pat[t]);
        b->write_boozmn("mn15.nc"); by[t][0] = cdf::slurp("mn15.nc");
        g = fresh(); g->verbose = vb; if (fills > 1) fill_stack(pat[t]); g->read_boozmn("mn15.nc"); s[t][2] = snap(*g); g->write_boozmn("mn15b.nc"); by[t][1] = cdf::slurp("mn15b.nc");
        b->run(); s[t][3] = snap(*b); c.transitions += 6; txt[t] = q.s.str();
      } catch (std::exception& ex) { set_fill(-1); c.fail(string("unexpected exception: ") + ex.what()); delete b; delete g; return; }
      set_fill(-1); delete b; delete g;
    }
    if (fills > 1) {
      const char* nm[] = {"after loading: ", "after run: ", "after reading the file: ", "after the second run: "};
      for (int t = 1; t < fills; t++) {
      for (int i = 0; i < 4; i++) { string m = snap_cmp(s[0][i], s[t][i]); if (!m.empty()) { c.fail(string("depends on the contents of fresh memory: ") + nm[i] + m); return; } }
      for (int i = 0; i < 2; i++) if (by[0][i] != by[t][i]) { c.fail("the file depends on the contents of fresh memory"); return; }
      if (txt[0] != txt[t]) { c.fail("the console output depends on the contents of fresh memory"); return; }
      }
    }
    uint64_t h = 0; for (int i = 0; i < 4; i++) h = mix(h ^ snap_hash(s[0][i])); h = mix(h ^ hash_str(by[0][0])); h = mix(h ^ hash_str(by[0][1])); h = mix(h ^ hash_str(txt[0]));
    if (hf) fprintf(hf, "%lld %016llx\n", c.idx, (unsigned long long)h);
  });
  if (hf) fclose(hf);
}

// Memory in use does not grow: everything is done three times, and the second and the third time leave nothing behind
static void c15_leaks(Ctx& c) {
#ifdef VF_MALLOC
  struct Sh { int ns, asym, nfp, mpol, ntor, mq, nq; };
  vector<Sh> shs = {{4, 0, 2, 2, 1, 2, 1}, {4, 1, 2, 2, 1, 2, 1}, {2, 0, 1, 1, 0, 0, 0}, {3, 1, 3, 1, 0, 1, 2}, {12, 1, 5, 3, 2, 3, 2}};
  static const char* nm[] = {"construction", "read_wout", "read_wout with fluxes", "init_from_vmec", "run", "run twice", "write", "read_boozmn", "whole chain", "copies", "missing wout", "missing boozmn", "boozmn as wout", "wout as boozmn", "wout without the last variable", "boozmn without a variable", "write without results", "write into a missing directory", "run without data", "surface out of range", "array of the wrong size", "resolution 0", "reading twice into one object"};
  for (auto& h : shs) for (int vb = 0; vb <= 2; vb++) for (int op = 0; op < (int)(sizeof nm / sizeof *nm); op++) {
    if (!c.next()) continue;
    Vmec v = make_vmec(h.ns, h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, true, 41); v.e.verbose = vb;
    std::ostringstream d; d << "memory after " << nm[op] << ", ns=" << h.ns << " " << v.e.str() << " verbose=" << vb; c.begin(d.str()); c.state(hash_str(d.str())); c.nontrivial++;
    std::ofstream sink("/dev/null"); std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
    { cdf::File w = wout_file(v, 2); cdf::write("wl.nc", w); w.vars.pop_back(); cdf::write("wlbad.nc", w);
      BX b; b.verbose = 0; b.read_wout("wl.nc", true); b.mboz = 2; b.nboz = h.ntor; b.run(); b.write_boozmn("bl.nc");
      cdf::File m = cdf::decode(cdf::slurp("bl.nc")); for (size_t i = 0; i < m.vars.size(); i++) if (m.vars[i].name == "gmn_b") { m.vars.erase(m.vars.begin() + i); break; } cdf::write("blbad.nc", m); }
    auto ready = [&](BX& b) { b.verbose = 0; b.read_wout("wl.nc", true); b.verbose = vb; b.mboz = 3; b.nboz = h.ntor; };
    auto once = [&] {
      BX b; b.verbose = vb; c.transitions++;
      try {
        switch (op) {
        case 1: b.read_wout("wl.nc"); break;
        case 2: b.read_wout("wl.nc", true); break;
        case 3: c09_apply(v, b); break;
        case 4: ready(b); b.run(); break;
        case 5: ready(b); b.run(); b.mboz = 1; b.run(); break;
        case 6: ready(b); b.run(); b.write_boozmn("ol.nc"); b.write_boozmn("ol.nc"); break;
        case 7: b.read_boozmn("bl.nc"); break;
        case 8: ready(b); b.run(); b.write_boozmn("ol.nc"); b.read_boozmn("ol.nc"); b.write_boozmn("ol2.nc"); ready(b); b.run(); break;
        case 9: { ready(b); b.run(); BX x(b), y; y = x; y.run(); x = y; break; }
        case 10: b.read_wout("no_such_file.nc"); break;
        case 11: b.read_boozmn("no_such_file.nc"); break;
        case 12: b.read_wout("bl.nc"); break;
        case 13: b.read_boozmn("wl.nc"); break;
        case 14: b.read_wout("wlbad.nc", true); break;
        case 15: b.read_boozmn("blbad.nc"); break;
        case 16: b.write_boozmn("ol.nc"); break;
        case 17: ready(b); b.run(); b.write_boozmn("no_such_directory/x.nc"); break;
        case 18: b.run(); break;
        case 19: ready(b); b.compute_surfs = toi({0, 99}); b.run(); break;
        case 20: ready(b); b.bmnc.resize(1, 1); b.run(); break;
        case 21: ready(b); b.mboz = 0; b.run(); break;
        case 22: b.read_wout("wl.nc", true); b.read_boozmn("bl.nc"); b.read_wout("wl.nc"); b.read_boozmn("bl.nc"); break;
        }
      } catch (std::exception&) {}
    };
    long blocks[4], bytes[4];
    for (int i = 0; i < 4; i++) { once(); blocks[i] = g_blocks; bytes[i] = g_bytes; }
    std::cout.rdbuf(old);
    if (blocks[3] > blocks[2] && blocks[2] > blocks[1]) { std::ostringstream o; o << "each time leaves " << blocks[3] - blocks[2] << " blocks of " << bytes[3] - bytes[2] << " bytes behind"; c.fail(o.str()); }
  }
#endif
}

// ---- C06 with the OpenMP runtime of the system -------------------------------
extern "C" void omp_set_num_threads(int);
static void c06_real(Ctx& c) {
  struct T { ~T() { omp_set_num_threads(1); } } restore;
  auto entries = [](const string& text, vector<string>& other, vector<Row>& rows) {
    string m = parse_rows(text, rows); if (!m.empty()) return m;
    std::istringstream in(text); string l; while (std::getline(in, l)) { auto t = split(l); if ((t.size() == 10 && t[3] == "0") || (t.size() == 7 && t[0] == "pi")) continue; if (l.find("hread") != string::npos) { string u; for (char ch : l) { if (isdigit(ch)) ch = '#'; if (ch != '#' || u.empty() || u.back() != '#') u += ch; } l = u; } other.push_back(l); }
    std::sort(other.begin(), other.end()); std::sort(rows.begin(), rows.end(), [](const Row& a, const Row& b) { return a.js_b < b.js_b; }); return string();
  };
  for (int asym = 0; asym < 2; asym++) for (int nfp = c.thorough ? 1 : 3; nfp <= 3; nfp += 2) for (int mpol : {1, 3}) for (int ntor : {0, 2}) for (int mb : {1, 4}) for (int ns : {2, 3, 4, 6, 9, 18, 40}) for (int sel = 0; sel < 4; sel++) for (int vb = 0; vb <= 2; vb++) {
    if (ns == 40 && (nfp != 3 || mpol != 3)) continue;
    if (!c.next()) continue;
    Vmec v = make_vmec(ns, asym, nfp, mpol, ntor, mpol, ntor, true, 31 + ns);
    vector<int> sf; int n = ns - 1; for (int j = 0; j < n; j++) sf.push_back(sel == 1 ? n - 1 - j : j); if (sel == 2) for (int j = 0; j < n; j++) sf.push_back(j); if (sel == 3) { vector<int> r; for (int j = 0; j < n; j += 2) r.push_back(j); sf = r; }
    Case k{ns, asym, nfp, mpol, ntor, mb, ntor ? 2 : 0, 1, sel}; c.begin("threads of the OpenMP runtime: " + cdesc(k, sf) + " verbose=" + std::to_string(vb)); c.state(hash_str(c.desc)); c.nontrivial++;
    Quiet q; Snap base; string bytes; vector<string> lines; vector<Row> rows; bool bad = false;
    for (int nt : {1, 2, 3, 4, 8, 16}) {
      omp_set_num_threads(nt); q.s.str(""); std::cout.copyfmt(std::ios(nullptr)); c.transitions++;
      try {
        BX b; prepare(b, v, k, sf, "c06"); b.verbose = vb; b.run(); b.write_boozmn("mn06.nc");
        vector<string> ot; vector<Row> rw; string m = entries(q.s.str(), ot, rw); if (!m.empty()) { c.fail(std::to_string(nt) + " threads: " + m); bad = true; break; }
        if (nt == 1) { base = snap(b); bytes = cdf::slurp("mn06.nc"); lines = ot; rows = rw; continue; }
        m = snap_cmp(snap(b), base); if (m.empty() && cdf::slurp("mn06.nc") != bytes) m = "another file"; if (m.empty() && ot != lines) m = "other lines on the console";
        if (m.empty() && rw.size() != rows.size()) m = "another number of accuracy entries";
        for (size_t i = 0; m.empty() && i < rw.size(); i++) { if (rw[i].thread < 0 || rw[i].thread >= nt) m = "wrong thread number"; if (rw[i].js_b != rows[i].js_b || rw[i].js != rows[i].js || memcmp(rw[i].v, rows[i].v, sizeof rows[i].v)) m = "another accuracy entry for js_b=" + std::to_string(rw[i].js_b); }
        if (!m.empty()) { c.fail(std::to_string(nt) + " threads: " + m); bad = true; break; }
      } catch (std::exception& ex) { c.fail(string("unexpected exception: ") + ex.what()); bad = true; break; }
    }
    (void)bad;
  }
}
#define IO_MORE {"c07_hist", c07_hist}, {"c07_pairs", c07_pairs}, {"c08_console", c08_console}, {"c08_direct", c08_direct}, {"c14_wout", c14_wout}, {"c14_boozmn", c14_boozmn}, {"c14_direct", c14_direct}, {"c14_order", c14_order}, {"c14_write", c14_write}, {"c15_chain", c15_chain}, {"c15_leaks", c15_leaks}, {"c06_real", c06_real}
