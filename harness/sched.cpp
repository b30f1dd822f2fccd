// C06: every schedule (within a preemption bound) of the threads of run() on the
// real, instrumented code, with the runtime of schedrt.cpp. Each schedule is
// executed by a forked process.
#include "files.hpp"
#include "vmec.hpp"
#include <functional>
#include "schedrt.hpp"
#include <iostream>
#include <map>
#include <deque>
#include <memory>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
using namespace vf;

struct Sink : std::streambuf {        // every insertion is an access to the console
  static string text;
  int overflow(int c) override { rt::rt_point_output(); if (c != EOF) text.push_back(c); return 0; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { rt::rt_point_output(); text.append(s, n); return n; }
  int sync() override { return 0; }
};
string Sink::text;
static ssize_t cookie_write(void*, const char* b, size_t n) { Sink::text.append(b, n); return n; }

static vector<string> split(const string& l) { std::istringstream i(l); vector<string> r; string t; while (i >> t) r.push_back(t); return r; }
static bool number(const string& s) { char* e; strtod(s.c_str(), &e); return !s.empty() && !*e; }

// lines of the console: accuracy entries are joined, thread numbers masked
static string console(const string& text, int team, std::multiset<string>& out) {
  if (!text.empty() && text.back() != '\n') return "the last line is incomplete";
  std::istringstream in(text); string l, open;
  while (std::getline(in, l)) {
    auto t = split(l); bool first = t.size() == 10 && t[3] == "0", second = t.size() == 7 && t[0] == "pi";
    if (first) for (auto& x : t) first = first && number(x);
    if (!open.empty() && !second) return "an accuracy entry is not followed by its second line but by \"" + l + "\"";
    if (first) { int th = atoi(t[0].c_str()); if (th < 0 || th >= team) return "thread number " + t[0] + " of " + std::to_string(team); open = "entry"; for (int i = 1; i < 10; i++) open += " " + t[i]; continue; }
    if (second && !open.empty()) { out.insert(open + " | " + l); open.clear(); continue; }
    if (l.find("hread") != string::npos) { string u; for (char ch : l) { if (isdigit(ch)) ch = '#'; if (ch != '#' || u.empty() || u.back() != '#') u += ch; } l = u; }
    out.insert(l);
  }
  return open.empty() ? "" : "an accuracy entry is incomplete";
}
static string cmp_console(const std::multiset<string>& a, const std::multiset<string>& b) {
  for (auto& x : a) if (a.count(x) != b.count(x)) return "line \"" + x + "\" appears " + std::to_string(a.count(x)) + " times, " + std::to_string(b.count(x)) + " in a serial execution";
  for (auto& x : b) if (a.count(x) != b.count(x)) return "line \"" + x + "\" appears " + std::to_string(a.count(x)) + " times, " + std::to_string(b.count(x)) + " in a serial execution";
  return "";
}

struct Path { std::shared_ptr<vector<uint8_t>> parent; int k, t; };      // the first k choices of the parent, then t

static rt::Shared* S;
static Sink sink;

// What is executed under one schedule, between rt_begin() and rt_end(); a message if the property does not hold
typedef std::function<string()> Body;
static string execute(const Body& body, const Body& judge, int team, int maxt, const vector<uint8_t>& prefix, const vector<uintptr_t>& conf, bool& bad_check) {
  bad_check = false;
  S->npoints = S->nconf = S->deadlock = S->overflow = S->done = S->diverged = S->max_team = 0; S->accesses = 0; S->msg[0] = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { bad_check = true; return "fork failed"; }
  if (!p) {
    alarm(60);
    rt::Config cf{maxt, team, prefix.data(), (int)prefix.size(), conf.data(), (int)conf.size(), 0};
    string m;
    Sink::text.reserve(1 << 16); std::cout.copyfmt(std::ios(nullptr));
    rt::rt_begin(&cf, S);
    try { m = body(); rt::rt_end(); } catch (std::exception& ex) { rt::rt_end(); m = string("unexpected exception: ") + ex.what(); }
    if (m.empty()) m = judge();
    strncpy(S->msg, m.c_str(), sizeof S->msg - 1); S->done = 1;
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (S->deadlock) return "the threads wait for each other forever";
  if (S->diverged) { bad_check = true; return "the execution is not determined by the schedule"; }
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) return "the execution does not end"; return string("killed by signal ") + strsignal(WTERMSIG(st)); }
  if (WEXITSTATUS(st) || !S->done) { bad_check = WEXITSTATUS(st) >= 90; return "exit status " + std::to_string(WEXITSTATUS(st)); }
  return S->msg;
}

static void explore(Ctx& c, const Body& body, const Body& judge, int team, int maxt, int bound) {
  vector<uintptr_t> conf; std::set<uintptr_t> cs; i64 schedules = 0; int maxp = 0; bool trunc = false;
  const time_t BUDGET = c.thorough ? 6000 : 240; static const time_t t0 = time(nullptr);
  const i64 LIMIT = c.thorough ? 400000 : 6000;
  for (int round = 0; ; round++) {
    size_t n0 = cs.size();
    vector<std::deque<Path>> work(bound + 1);      // by number of preemptions: fewest first
    work[0].push_back({nullptr, 0, -1});
    while (true) {
      int cost = 0; while (cost <= bound && work[cost].empty()) cost++;
      if (cost > bound) break;
      Path w = work[cost].back(); work[cost].pop_back();
      vector<uint8_t> prefix; if (w.parent) { prefix.assign(w.parent->begin(), w.parent->begin() + w.k); prefix.push_back(w.t); }
      bool bad; string m = execute(body, judge, team, maxt, prefix, conf, bad); schedules++; c.transitions += S->npoints;
      if (bad) { std::cerr << m << std::endl; fprintf(stderr, "check error: %s\n", m.c_str()); _exit(2); }
      if (!m.empty()) {
        std::ostringstream o; o << m << "; schedule (thread chosen at each point):"; for (int i = 0; i < S->npoints && i < 300; i++) o << ' ' << (int)S->p[i].chosen;
        o << "; shared data without a common lock: " << std::max<size_t>(conf.size(), S->nconf) << " words"; c.fail(o.str()); return;
      }
      if (S->max_team && S->max_team != team) { c.fail("a team of " + std::to_string(S->max_team) + " threads was started"); return; }
      for (int i = 0; i < S->nconf; i++) cs.insert(S->conf[i]);
      if (S->overflow) trunc = true;
      maxp = std::max(maxp, S->npoints);
      auto chosen = std::make_shared<vector<uint8_t>>(); for (int k = 0; k < S->npoints; k++) chosen->push_back(S->p[k].chosen);
      for (int k = 0; k < S->npoints; k++) {
        rt::Point& p = S->p[k]; c.state(mix(S->progress[k] * 31 + c.idx * 7919 + p.cur));
        // beyond the prefix the execution continues without preemption
        if (k >= (int)prefix.size()) for (int t = 0; t < rt::MAXT; t++) if ((p.enabled >> t & 1) && t != p.chosen) {
          int add = p.free_switch ? 0 : 1; if (cost + add <= bound) work[cost + add].push_back({chosen, k, t});
        }
      }
      if (schedules >= LIMIT || (c.only < 0 && time(nullptr) - t0 > BUDGET)) { trunc = true; break; }
    }
    if (cs.size() == n0 || round >= 6 || trunc) break;
    conf.assign(cs.begin(), cs.end()); if (conf.size() > rt::MAXC) conf.resize(rt::MAXC);
  }
  c.count("schedules", schedules); c.count("conflicting_words", conf.size()); if (trunc) c.count("configurations_not_exhausted"); if (schedules > 1) c.nontrivial++;
  i64 mp = 0; for (auto& x : c.counters) if (x.first == "accesses_checked") mp = x.second; (void)mp; c.count("accesses_checked", S->accesses * schedules);
}

// run() of one object by a team
static void explore_run(Ctx& c, const Eq& e, int team, int maxt, int bound) {
  BX b; set_inputs(b, e);
  Snap base; std::multiset<string> lines;        // of a serial execution
  { BX s; set_inputs(s, e); Sink::text.clear(); std::cout.copyfmt(std::ios(nullptr)); s.run(); base = snap(s); string m = console(Sink::text, 1, lines); Sink::text.clear(); if (!m.empty()) { c.fail("serial execution: " + m); return; } }
  explore(c, [&] { b.run(); return string(); }, [&] {
    string m = snap_cmp(snap(b), base, {}, 0);
    if (m.empty()) { std::multiset<string> got; m = console(Sink::text, team, got); if (m.empty()) m = cmp_console(got, lines); if (!m.empty()) m += " (console)"; }
    return m; }, team, maxt, bound);
}

// Several threads, each with an object of its own: load, run, or run twice, at verbosity 0
struct Actor { int op; Vmec v; BX* b; string err; int mb, nb; };
static void act(Actor& a) {
  try {
    if (a.op & 1) { a.err = c09_apply(a.v, *a.b); if (!a.err.empty()) return; a.b->mboz = a.mb; a.b->nboz = a.nb; }
    if (a.op & 2) a.b->run();
    if (a.op & 4) { a.b->mboz = a.nb + 1; a.b->nboz = a.mb - 1; a.b->run(); }
  } catch (std::exception& ex) { a.err = string("unexpected exception: ") + ex.what(); }
}
static vector<Actor>* cast;
static void entry(void*) { act((*cast)[rt::rt_thread()]); }
static void c06_objects(Ctx& c) {
  struct Sh { int asym, nfp, mpol, ntor, mq, nq, mb, nb; };
  vector<Sh> shapes = {{0, 2, 2, 1, 1, 1, 2, 1}, {1, 2, 2, 1, 1, 1, 2, 1}, {1, 1, 1, 1, 1, 0, 1, 1}, {0, 1, 2, 0, 1, 0, 2, 0}, {0, 3, 2, 1, 2, 2, 1, 2}, {0, 2, 2, 1, 1, 1, 1, 2}};
  int n = shapes.size(), ops[] = {1, 2, 3, 6, 7};
  for (int k = 2; k <= (c.thorough ? 3 : 2); k++) for (int x = 0; x < n; x++) for (int y = x; y < n; y++) for (int z = 0; z < (k == 3 ? n : 1); z++) for (int o1 : ops) for (int o2 : ops) {
    if (k == 3 && (x + y + z) % 3) continue;
    if (!c.next() || !c.fails.empty()) continue;
    std::ostringstream d; d << k << " objects in " << k << " threads: shapes " << x << " " << y; if (k == 3) d << " " << z; d << " operations " << o1 << " " << o2; c.begin(d.str());
    auto make = [&](vector<Actor>& as) { for (int i = 0; i < k; i++) { auto& h = shapes[i == 0 ? x : i == 1 ? y : z]; Actor a; a.op = i == 0 ? o1 : o2; a.v = make_vmec(3, h.asym, h.nfp, h.mpol, h.ntor, h.mq, h.nq, true, 5 + i); a.v.e.verbose = 0; a.mb = h.mb; a.nb = h.nb; a.b = new BX; a.b->verbose = 0; if (!(a.op & 1)) { a.err = c09_apply(a.v, *a.b); a.b->mboz = a.mb; a.b->nboz = a.nb; } as.push_back(a); } };
    vector<Actor> ref, as; make(ref); make(as); vector<Snap> base;
    for (auto& a : ref) { if (a.err.empty()) act(a); if (!a.err.empty()) { c.fail(a.err); break; } base.push_back(snap(*a.b)); }
    if ((int)base.size() == k) {
      cast = &as;
      explore(c, [&] { rt::rt_team(entry, nullptr, k); return string(); }, [&] {
        for (int i = 0; i < k; i++) { if (!as[i].err.empty()) return as[i].err; string m = snap_cmp(snap(*as[i].b), base[i], {}, 0); if (!m.empty()) return "object " + std::to_string(i) + ": " + m; }
        if (!Sink::text.empty()) return string("output at verbosity 0");
        return string(); }, k, k, c.thorough ? 3 : 2);
    }
    for (auto& a : ref) delete a.b; for (auto& a : as) delete a.b;
  }
}

static void c06_sched(Ctx& c) {
  struct Shape { int asym, nfp, mpol, ntor, mq, nq, mb, nb; };
  vector<Shape> shapes = {{0, 2, 2, 1, 1, 1, 2, 1}, {1, 1, 1, 1, 1, 0, 1, 1}, {0, 1, 2, 0, 1, 0, 2, 0}, {1, 3, 2, 1, 1, 1, 2, 0}};
  if (c.thorough) { shapes.push_back({0, 5, 1, 0, 0, 1, 1, 2}); shapes.push_back({1, 2, 3, 1, 2, 1, 4, 1}); }
  vector<vector<int>> sel = {{0}, {1, 0}, {0, 2}, {0, 1, 2}, {2, 0, 1}, {3, 1, 2, 0}, {0, 1, 2, 3}, {1, 1}, {0, 1, 2, 3, 4}};
  for (auto& sh : shapes) for (int vb = 0; vb <= 2; vb++) for (int team = 1; team <= 4; team++) for (int less = 0; less < 2; less++) for (auto& sf : sel) {
    if (!c.next() || !c.fails.empty()) continue;
    Eq e = shape(sh.asym, sh.nfp, sh.mpol, sh.ntor, sh.mq, sh.nq, 5, sh.mb, sh.nb); fill_generic(e, 17, 1.7, -0.2, 0.6); e.surfs = sf; e.verbose = vb;
    std::ostringstream d; d << e.str() << " surfaces"; for (int s : sf) d << ' ' << s; d << " threads " << team << (less ? " (fewer than the maximum)" : "") << " verbose=" << vb; c.begin(d.str());
    size_t size = std::max<size_t>(1, std::min<size_t>(team, sf.size()) * sf.size());
    int bound = c.thorough ? (size <= 6 ? 4 : 3) : size <= 4 ? 3 : size <= 6 || &sh - &shapes[0] < 2 ? 2 : 1;
    explore_run(c, e, team, team + 2 * less, bound);
  }
}

int main(int argc, char** argv) {
  Ctx c; c.parse(argc, argv);
  S = (rt::Shared*)mmap(nullptr, sizeof(rt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::cout.rdbuf(&sink); std::cerr.rdbuf(&sink); std::clog.rdbuf(&sink);
  cookie_io_functions_t f = {nullptr, cookie_write, nullptr, nullptr}; FILE* real = stdout; FILE* fake = fopencookie(nullptr, "w", f); setvbuf(fake, nullptr, _IONBF, 0); 
  if (c.only < 0 || !c.out.empty()) stdout = fake; (void)real;
  if (c.part == "c06_objects") c06_objects(c); else c06_sched(c);
  stdout = real;
  return c.finish();
}
