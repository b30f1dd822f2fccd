// C13: every operation of the file layer can fail. The functions of the netCDF
// library (as called by the code of the repository), the system calls on the
// file, and memory allocations of the repository's code are intercepted; the
// tree of failures is enumerated.
#include "files.hpp"
#include <iostream>
#include <map>
#include <functional>
#include <netcdf.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
using namespace vf;

namespace fi {
enum Layer { NC, SYS, MEM };
static bool armed = false;           // counting and failing
static Layer layer = NC;
struct Fault { i64 at; int code; int mode; };    // code: status or errno; mode 1: the operation is done, then reported as failed (system calls: and so do all later ones of this kind)
static vector<Fault> plan; static i64 count_ = 0;
static vector<string> log_;          // names of the operations
static vector<int> ncids; static std::set<int> fds; static int opened = 0;
static string path;
static const Fault* next(const char* name) {
  i64 k = count_++; log_.push_back(name);
  for (auto& f : plan) if (f.at == k || (layer == SYS && f.mode && f.at < k && log_[f.at] == name)) return &f;
  return nullptr;
}
struct Off { bool s; Off() : s(armed) { armed = false; } ~Off() { armed = s; } };
static int fill = -1;
}

extern "C" {
extern char __executable_start, etext;
static bool from_exe(void* ret) { return (char*)ret >= &__executable_start && (char*)ret < &etext; }

// ---- netCDF ----
enum Idx {
#define F(n) I_##n,
#include "ncfuncs.inc"
#undef F
  NFUNC };
static const char* fname[] = {
#define F(n) #n,
#include "ncfuncs.inc"
#undef F
};
static void* real_[NFUNC];
static void* real_fn(int i) { if (!real_[i]) { fi::Off o; real_[i] = dlsym(RTLD_NEXT, fname[i]); if (!real_[i]) { fprintf(stderr, "no %s\n", fname[i]); _exit(2); } } return real_[i]; }
struct Ret { long handled, value; };
typedef long (*fn8)(long, long, long, long, long, long, long, long);
Ret vf_hook(long i, void* ret, long* r) {
  void* f = real_fn(i);
  if (!from_exe(ret)) return {0, (long)f};
  auto call = [&] { return (long)(int)((fn8)f)(r[0], r[1], r[2], r[3], r[4], r[5], r[7], r[8]); };
  bool was = fi::armed;
  const fi::Fault* ft = nullptr;
  if (was && fi::layer == fi::NC) { fi::Off o; ft = fi::next(fname[i]); }
  bool opens = i == I_nc_open || i == I_nc_create || i == I_nc__open || i == I_nc__create;
  if (!ft && !opens) return {0, (long)f};
  if (ft && !ft->mode && i != I_nc_close && i != I_nc_abort) return {1, ft->code};
  long v = call();        // (closing releases the file whatever it reports)
  if (opens && v == NC_NOERR && was) { fi::Off o; int* id = (int*)(i == I_nc__open ? r[3] : i == I_nc__create ? r[4] : r[2]); fi::ncids.push_back(*id); if (ft) { fi::Off o2; nc_close(*id); } }
  return {1, ft ? ft->code : v};
}
}
// the index of each stub is its position in the list: counted by the assembler
asm(".text\n.set vfi, 0\n");
#define F(n) asm(".globl " #n "\n.type " #n ",@function\n" #n ":\n" \
  " push %r9\n push %r8\n push %rcx\n push %rdx\n push %rsi\n push %rdi\n" \
  " mov $vfi_" #n ", %edi\n mov 48(%rsp), %rsi\n mov %rsp, %rdx\n sub $8, %rsp\n call vf_hook\n add $8, %rsp\n mov %rax, %r10\n mov %rdx, %r11\n" \
  " pop %rdi\n pop %rsi\n pop %rdx\n pop %rcx\n pop %r8\n pop %r9\n test %r10, %r10\n jnz 1f\n jmp *%r11\n1: mov %r11, %rax\n ret\n .set vfi_" #n ", vfi\n .set vfi, vfi + 1\n");
#include "ncfuncs.inc"
#undef F

// ---- system calls on the file ----
#define REAL(n) ((decltype(&n))[] { static void* p; if (!p) { fi::Off o; p = dlsym(RTLD_NEXT, #n); } return p; }())
static bool ours(const char* p) { return p && fi::path.size() && strcmp(p, fi::path.c_str()) == 0; }
static std::set<FILE*> streams;
static const fi::Fault* sysfault(const char* n) { if (!fi::armed || fi::layer != fi::SYS) return nullptr; fi::Off o; return fi::next(n); }
extern "C" {
int open64(const char* p, int fl, ...) {
  int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
  bool u = fi::armed && ours(p);
  if (u) if (auto* f = sysfault("open")) { errno = f->code; return -1; }
  int fd = REAL(open64)(p, fl, mode); if (u && fd >= 0) { fi::Off o; fi::fds.insert(fd); fi::opened++; } return fd;
}
int open(const char* p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } return open64(p, fl, mode); }
ssize_t read(int fd, void* b, size_t n) { if (fi::armed && fi::fds.count(fd)) if (auto* f = sysfault("read")) { errno = f->code; return -1; } return REAL(read)(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (fi::armed && fi::fds.count(fd)) if (auto* f = sysfault("write")) { errno = f->code; return -1; } return REAL(write)(fd, b, n); }
off64_t lseek64(int fd, off64_t o, int w) throw() { if (fi::armed && fi::fds.count(fd)) if (auto* f = sysfault("lseek")) { errno = f->code; return -1; } return REAL(lseek64)(fd, o, w); }
int ftruncate64(int fd, off64_t o) throw() { if (fi::armed && fi::fds.count(fd)) if (auto* f = sysfault("ftruncate")) { errno = f->code; return -1; } return REAL(ftruncate64)(fd, o); }
int close(int fd) { bool u = fi::armed && fi::fds.count(fd); if (u) { { fi::Off o; fi::fds.erase(fd); fi::opened--; } if (auto* f = sysfault("close")) { REAL(close)(fd); errno = f->code; return -1; } } return REAL(close)(fd); }
FILE* fopen64(const char* p, const char* m) { bool u = fi::armed && ours(p); if (u) if (auto* f = sysfault("fopen")) { errno = f->code; return nullptr; } FILE* s = REAL(fopen64)(p, m); if (u && s) { fi::Off o; streams.insert(s); fi::opened++; } return s; }
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
size_t fread(void* b, size_t s, size_t n, FILE* h) { if (fi::armed && streams.count(h)) if (auto* f = sysfault("fread")) { errno = f->code; return 0; } return REAL(fread)(b, s, n, h); }
int fseek(FILE* h, long o, int w) { if (fi::armed && streams.count(h)) if (auto* f = sysfault("fseek")) { errno = f->code; return -1; } return REAL(fseek)(h, o, w); }
int fclose(FILE* h) { if (fi::armed && streams.count(h)) { fi::Off o; streams.erase(h); fi::opened--; } return REAL(fclose)(h); }

// ---- memory allocated by operator new in the code of the repository (not by Eigen, whose resize() is not exception safe) ----
void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t);
void* malloc(size_t n) {
  void* p = __libc_malloc(n); if (p && fi::fill >= 0) memset(p, fi::fill, n); return p;
}
}
void* operator new(size_t n) {
  if (fi::armed && fi::layer == fi::MEM && from_exe(__builtin_return_address(0))) { fi::Off o; if (fi::next("operator new")) throw std::bad_alloc(); }
  void* p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (fi::fill >= 0) memset(p, fi::fill, n); return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// ---- scenarios ----
struct Quiet { std::streambuf* old; std::ostringstream s; Quiet() { old = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(old); } };
struct Scenario { string name; int op; string bytes; bool flux; int verbose; std::function<void(BX&)> prepare; };   // op 0 read_wout, 1 read_boozmn, 2 write_boozmn
static const char* INF = "c13in.nc";
static const char* OUTF = "c13out.nc";

static void call(const Scenario& s, BX& b) { if (s.op == 0) b.read_wout(INF, s.flux); else if (s.op == 1) b.read_boozmn(INF); else b.write_boozmn(OUTF); }

struct Outcome { bool threw = false; string what; Snap snap; string file; };

static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

// run the operation with the plan; a message if the property does not hold
static string run_plan(const Scenario& s, const Outcome* ref, Outcome& out, BX& b) {
  s.prepare(b); b.verbose = s.verbose;
  if (s.op < 2) { cdf::spit(INF, s.bytes); fi::path = INF; } else { unlink(OUTF); fi::path = OUTF; }
  fi::count_ = 0; fi::log_.clear(); fi::ncids.clear(); fi::fds.clear(); streams.clear(); fi::opened = 0;
  int fd0 = open_fds();
  fi::fill = 0xA5; string other;
  fi::armed = true;
  try { call(s, b); fi::armed = false; } catch (std::exception& ex) { fi::armed = false; out.threw = true; out.what = ex.what(); } catch (...) { fi::armed = false; out.threw = true; other = "an exception that is no std::exception"; }
  fi::fill = -1;
  if (!other.empty()) return other;
  // nothing stays open
  for (int id : fi::ncids) { int a; if (nc_inq_ndims(id, &a) == NC_NOERR) { nc_close(id); return string("the file is left open") + (out.threw ? " after the exception" : ""); } }
  if (open_fds() != fd0) return string("a file descriptor is left open") + (out.threw ? " after the exception" : "");
  if (!out.threw) {
    out.snap = snap(b); if (s.op == 2) { if (!exists(OUTF)) return "no exception, but no file"; out.file = cdf::slurp(OUTF); }
    if (ref) {
      string m = snap_cmp(out.snap, ref->snap); if (!m.empty()) return "no exception, but " + m;
      if (out.file != ref->file) return "no exception, but the file differs from that of an undisturbed execution";
    }
  }
  if (ref && !fi::plan.empty()) {     // the same object again, undisturbed
    try { if (s.op < 2) cdf::spit(INF, s.bytes); call(s, b); } catch (std::exception& ex) { return string("the same call fails afterwards: ") + ex.what(); }
    string m = snap_cmp(snap(b), ref->snap); if (!m.empty()) return "after a failed and a successful call: " + m;
    if (s.op == 2 && cdf::slurp(OUTF) != ref->file) return "after a failed and a successful call the file differs";
  }
  return "";
}

static vector<Scenario> scenarios(bool thorough) {
  vector<Scenario> r; auto nothing = [](BX&) {};
  auto add = [&](string n, int op, string bytes, bool flux, int vb, std::function<void(BX&)> p) { r.push_back({n, op, bytes, flux, vb, p}); };
  for (int asym = 0; asym < 2; asym++) for (int flux = 0; flux < 2; flux++) for (int vb = 0; vb < 2; vb++) {
    int ns = 4 - asym; Vmec v = make_vmec(ns, asym, 3, 2, 1, 2, 1, true, 40 + asym);
    string bytes = cdf::encode(wout_file(v, 6.5));
    string n = string(asym ? "asymmetric" : "symmetric") + (flux ? " with fluxes" : "") + (vb ? " verbose" : "");
    if (vb && !thorough && flux) continue;
    add("read_wout " + n, 0, bytes, flux, vb, nothing);
    // into an object that holds something else
    string other = cdf::encode(wout_file(make_vmec(5, !asym, 2, 1, 1, 1, 1, true, 77), 2.5));
    add("read_wout " + n + " into a used object", 0, bytes, flux, vb, [other](BX& b) { b.verbose = 0; cdf::spit("c13o.nc", other); b.read_wout("c13o.nc", true); });
    auto ran = [bytes, flux](BX& b) { b.verbose = 0; cdf::spit("c13o.nc", bytes); b.read_wout("c13o.nc", flux); b.mboz = 3; b.nboz = 2; b.compute_surfs = toi(vector<int>{1, 0}); b.run(); b.write_boozmn("c13o.nc"); };
    add("write_boozmn " + n, 2, "", flux, vb, ran);
    BX b; ran(b); string mn = cdf::slurp("c13o.nc");
    add("read_boozmn " + n, 1, mn, flux, vb, nothing);
    add("read_boozmn " + n + " into a used object", 1, mn, flux, vb, [other](BX& b) { b.verbose = 0; cdf::spit("c13o.nc", other); b.read_wout("c13o.nc", true); b.mboz = 2; b.nboz = 1; b.run(); });
    { cdf::File f = cdf::decode(mn); vector<cdf::Var> k; for (auto& x : f.vars) if (x.name != "chi_b" && x.name != "aspect_b") k.push_back(x); f.vars = k; add("read_boozmn " + n + " without chi_b and aspect_b", 1, cdf::encode(f), flux, vb, nothing); }
  }
  for (int asym = 0; asym < 2; asym++) {     // files of many pages
    Vmec v = make_vmec(thorough ? 60 : 24, asym, 2, 5, 3, 6, 4, true, 90 + asym); string bytes = cdf::encode(wout_file(v, 3.5));
    auto ran = [bytes](BX& b) { b.verbose = 0; cdf::spit("c13o.nc", bytes); b.read_wout("c13o.nc", true); b.mboz = 3; b.nboz = 2; static std::map<string, BX> done; if (!done.count(bytes)) { b.run(); done[bytes] = b; } b = done[bytes]; };
    add(string("large read_wout ") + (asym ? "asymmetric" : "symmetric"), 0, bytes, true, 0, nothing);
    add(string("large write_boozmn ") + (asym ? "asymmetric" : "symmetric"), 2, "", true, 0, [ran](BX& b) { ran(b); b.phip[0] = 0; });
    BX b; ran(b); b.write_boozmn("c13o.nc"); add(string("large read_boozmn ") + (asym ? "asymmetric" : "symmetric"), 1, cdf::slurp("c13o.nc"), true, 0, nothing);
  }
  return r;
}

// codes that are an answer and not a failure
static bool answer(const string& fn, int code) {
  if (fn.find("inq_dimid") != string::npos || fn == "nc_inq_dim") return code == NC_EBADDIM;
  if (fn.find("inq_varid") != string::npos) return code == NC_ENOTVAR;
  if (fn.find("_att") != string::npos && fn.find("put") == string::npos) return code == NC_ENOTATT;
  return false;
}

static void explore(Ctx& c, const Scenario& s, fi::Layer layer) {
  Quiet q; fi::layer = layer; fi::plan.clear();
  Outcome ref; i64 total; vector<string> names;
  { BX b; string m = run_plan(s, nullptr, ref, b); total = fi::count_; names = fi::log_; q.s.str(""); if (m.empty() && ref.threw) m = "undisturbed execution: " + ref.what; if (!m.empty()) { if (c.next()) { c.begin(s.name); c.fail(m); } return; } }
  static const int ncc[] = {NC_EIO, NC_ERANGE, NC_ENOMEM, NC_EBADID, NC_ENOTVAR, NC_EBADDIM, NC_EHDFERR, EIO, NC_EPERM, NC_ENOTATT, NC_EINVAL, NC_EEDGE, NC_ENAMEINUSE, NC_EINDEFINE, NC_EVARSIZE, EACCES};
  static const int sysc[] = {EIO, ENOSPC, EINTR, EBADF, ENOMEM};
  vector<int> codes; if (layer == fi::NC) codes.assign(ncc, ncc + (c.thorough ? 16 : 9)); else if (layer == fi::SYS) codes.assign(sysc, sysc + 5); else codes = {ENOMEM};
  const char* ln[] = {"netCDF call", "system call", "allocation"};
  for (i64 k = 0; k < total; k++) for (int code : codes) for (int mode = 0; mode < (layer == fi::MEM ? 1 : 2); mode++) {
    if (layer == fi::NC && answer(names[k], code)) continue;
    if (layer == fi::SYS && mode && names[k] != "write" && names[k] != "read" && names[k] != "lseek") continue;
    if (layer == fi::SYS && mode && code == EINTR) continue;      // is tried again for ever   // (the library never gives up on a stream)
    if (!c.next()) continue;
    std::ostringstream d; d << s.name << ": " << ln[layer] << " " << k << " (" << names[k] << ") fails with " << code << (!mode ? "" : layer == fi::SYS ? ", and all later ones" : " after having worked"); c.begin(d.str());
    auto one = [&](vector<fi::Fault> plan, i64& n, bool* threw = nullptr) { fi::plan = plan; q.s.str(""); Outcome o; BX b; string m = run_plan(s, &ref, o, b); fi::plan.clear(); c.transitions += fi::count_; n = fi::count_; c.count(o.threw ? "exceptions" : "tolerated"); if (threw) *threw = o.threw; if (o.threw) c.nontrivial++; vector<double> st; for (auto& f : plan) { st.push_back(f.at); st.push_back(f.code); st.push_back(f.mode); } c.state(hash_bytes(st.data(), 8 * st.size(), hash_str(s.name) + layer)); c.count("executions"); return m; };
    i64 n; bool threw = true; string m = one({{k, code, mode}}, n, &threw);
    // what the library reports as failed is reported, whatever its effect was (a failed inquiry can be got over)
    if (m.empty() && !threw && layer == fi::NC && names[k].find("inq") == string::npos) m = "no exception";
    // fi::count_ at the end of the disturbed call is not known exactly after the second call: it was disarmed, so n is that of the first
    if (m.empty() && code == codes[0]) for (i64 k2 = k + 1; k2 < n; k2++) for (int c2 : {codes[0], codes.back()}) { i64 n2; m = one({{k, code, mode}, {k2, c2, 0}}, n2); if (!m.empty()) { m = "and operation " + std::to_string(k2) + " fails with " + std::to_string(c2) + ": " + m; break; } if (c2 == codes.back()) break; }
    if (!m.empty()) c.fail(m);
  }
}

int main(int argc, char** argv) {
  Ctx c; c.parse(argc, argv);
  for (int i = 0; i < NFUNC; i++) real_fn(i);
  { fi::Off o; REAL(open64); REAL(read); REAL(write); REAL(lseek64); REAL(ftruncate64); REAL(close); REAL(fopen64); REAL(fread); REAL(fseek); REAL(fclose); }
  fi::Layer l = c.part == "c13_nc" ? fi::NC : c.part == "c13_sys" ? fi::SYS : fi::MEM;
  for (auto& s : scenarios(c.thorough)) explore(c, s, l);
  return c.finish();
}
