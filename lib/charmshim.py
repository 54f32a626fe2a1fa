"""A single-process stand-in for the Charm++ runtime, for running generated superB programs under a monitored scheduler.

prepare(project_dir) translates timestepping.ci and main.ci (structured dagger) into plain functions on fibers and writes the
headers that charmc would provide (*.decl.h, *.def.h, ckio.h, pup.h, pup_stl.h) plus the runtime.  The runtime keeps
one FIFO channel per (sender, receiver) pair and picks the next message according to a seeded policy, so each run is
one admissible delivery order.  It watches for: messages nobody consumes before the program ends (deadlock), bytes of
an output session written twice, never or out of range, failed CkAssert, and it records the state of every chare at
the start of every time step.  With SHIM_RESTART=k the k-th checkpoint is followed by a restart: every chare is packed,
its memory and everything it had allocated is poisoned, a fresh object is unpacked in its place, and all messages
still in flight are lost, as they would be.
"""
import re
from pathlib import Path

LIGHT = r"""
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <string>
#include <type_traits>
namespace PUP {
struct er {
  int mode = 0; // 0 size, 1 pack, 2 unpack
  std::vector<char> *buf = nullptr; size_t pos = 0;
  bool isUnpacking() const { return mode == 2; }
  bool isPacking() const { return mode == 1; }
  bool isSizing() const { return mode == 0; }
  bool isDeleting() const { return false; }
  void bytes(void *p, size_t n);
  template <class T> void operator()(T *a, size_t n);
  template <class T> void operator()(T &a) { (*this) | a; }
};
template <class T> inline er &operator|(er &p, T &t) {
  if constexpr (requires { t.pup(p); }) t.pup(p);
  else { static_assert(std::is_trivially_copyable_v<T>, "no pup routine"); p.bytes((void *)&t, sizeof(T)); }
  return p;
}
template <class T> inline er &operator|(er &p, std::vector<T> &v) {
  size_t n = v.size(); p | n; if (p.isUnpacking()) v.resize(n); for (auto &x : v) p | x; return p;
}
inline er &operator|(er &p, std::string &v) {
  size_t n = v.size(); p | n; if (p.isUnpacking()) v.resize(n); p.bytes(v.data(), n); return p;
}
template <class T> void er::operator()(T *a, size_t n) { for (size_t i = 0; i < n; i++) (*this) | a[i]; }
}
template <class T> inline void PUParray(PUP::er &p, T *t, long n) { for (long i = 0; i < n; i++) p | t[i]; }
#define PUPn(x) p | x
struct CkMessage { virtual ~CkMessage() {} virtual CkMessage *clone() const = 0; };
struct CkReductionMsg : CkMessage {
  std::vector<char> d; int getSize() const { return (int)d.size(); } void *getData() { return d.data(); } int getLength() const { return (int)d.size(); }
  CkMessage *clone() const override { return new CkReductionMsg(*this); }
};
struct CkCallback { int ep = -1; int target = -1; CkCallback() {} template <class P> CkCallback(int e, const P &p) : ep(e), target(p._target) {} };
namespace Ck { namespace IO {
struct File { int id = -1; };
struct Session { int id = -1; };
struct Options { int peStripe = 0, writeStripe = 0, activePEs = -1, basePE = -1, skipPEs = -1; };
struct FileReadyMsg : CkMessage { File file; CkMessage *clone() const override { return new FileReadyMsg(*this); } };
struct SessionReadyMsg : CkMessage { Session session; CkMessage *clone() const override { return new SessionReadyMsg(*this); } };
void open(std::string path, CkCallback opened, Options opts);
void startSession(File file, size_t bytes, size_t offset, CkCallback ready, CkCallback complete);
void write(Session session, const char *data, size_t bytes, size_t offset);
void close(File file, CkCallback closed);
} }
"""

HEAVY = r"""
#pragma once
#include "ckio.h"
#include <cstdio>
#include <cmath>
#include <deque>
#include <functional>
#include <utility>
struct CkMigrateMessage {};
struct CkArgMsg { int argc; char **argv; };
struct CkIndex3D { int x, y, z; };
struct CkArrayIndex3D { int x, y, z; CkArrayIndex3D(int a, int b, int c) : x(a), y(b), z(c) {} };
namespace CkReduction { enum reducerType { sum_double, max_double, min_double, nop, sum_int }; }
void shim_violation(const char *kind, const char *what);
#define CkAssert(x) do { if (!(x)) shim_violation("assertion", #x); } while (0)
#define CkReductionTarget(C, ep) CkIndex_##C::ep()
#define CkPrintf printf
double CkWallTimer();
void CkExit(int rc = 0);
inline int CkMyPe() { return 0; }
inline int CkNumPes() { return 1; }
inline int CkMyNode() { return 0; }
void CkAbort(const char *fmt, ...);
void CkStartCheckpoint(const char *dir, const CkCallback &cb);
extern int shim_N[3], shim_creating, shim_sender;
inline int shim_idx(int x, int y, int z) { return x + shim_N[0] * (y + shim_N[1] * z); }
struct ShimMsg { virtual ~ShimMsg(); virtual long _ref() const; };
typedef void (*ShimAct)(int, ShimMsg *);
void shim_post(int dst, const char *what, ShimAct f, ShimMsg *m);
void shim_contribute(int who, size_t n, const double *v, CkReduction::reducerType t, const CkCallback &cb);
void shim_note(const char *what, int who);
void *shim_self();                         // the running fiber
void shim_block();                         // back to the scheduler until resumed
void shim_resume(void *fiber);
void shim_spawn(ShimAct f, int d, ShimMsg *m);
struct ShimQ {
  struct Waiter { void *h; bool any; long ref; ShimMsg **slot; };
  std::deque<ShimMsg *> q; std::deque<Waiter> w;
  void push(ShimMsg *m);
  bool waiting() const;
  ShimMsg *get_(bool any, long ref);
  ShimMsg *get() { return get_(true, 0); }
  ShimMsg *get(long ref) { return get_(false, ref); }
};
"""

RUNTIME = r"""
#include "main.h"
#include "timestepping.decl.h"
#include <map>
#include <set>
#include <random>
#include <cstdarg>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <ucontext.h>
#include <sys/mman.h>
int shim_N[3], shim_creating = -1, shim_sender = -1;
struct Item { ShimAct f; int d; ShimMsg *m; const char *what; long seq; };
static std::map<std::pair<int, int>, std::deque<Item>> chan;   // (sender, receiver)
static long seq = 0, delivered = 0, nviol = 0;
static std::mt19937_64 gen;
static int policy = 0, victim = 0, restart_at = 0, ncheckpoints = 0, nrestarts = 0, exiting = 0;
static unsigned long orderhash = 0;
static FILE *logf_;
static int ncharesF() { return shim_N[0] * shim_N[1] * shim_N[2]; }
void shim_violation(const char *kind, const char *what) { fprintf(logf_, "VIOL %s: %s\n", kind, what); fflush(logf_); if (++nviol > 20) _exit(43); }
void CkAbort(const char *fmt, ...) { shim_violation("abort", fmt); _exit(43); }
double CkWallTimer() { return 0.0; }
void CkExit(int) { exiting = 1; }
void shim_post(int dst, const char *what, ShimAct f, ShimMsg *m) { chan[{shim_sender, dst}].push_back({f, dst, m, what, seq++}); }
ShimMsg::~ShimMsg() {}
long ShimMsg::_ref() const { return 0; }
bool ShimQ::waiting() const { return !w.empty(); }
void ShimQ::push(ShimMsg *m) {
  for (auto it = w.begin(); it != w.end(); ++it) if (it->any || m->_ref() == it->ref) { auto x = *it; w.erase(it); *x.slot = m; shim_resume(x.h); return; }
  q.push_back(m);
}
ShimMsg *ShimQ::get_(bool any, long ref) {
  for (auto it = q.begin(); it != q.end(); ++it) if (any || (*it)->_ref() == ref) { ShimMsg *m = *it; q.erase(it); return m; }
  ShimMsg *slot = nullptr; w.push_back({shim_self(), any, ref, &slot}); shim_block(); return slot;
}
void PUP::er::bytes(void *p, size_t n) {
  if (mode == 2) { if (pos + n > buf->size()) { shim_violation("pup", "unpacking reads more bytes than were packed"); _exit(43); } memcpy(p, buf->data() + pos, n); }
  else if (mode == 1) buf->insert(buf->end(), (char *)p, (char *)p + n);
  pos += n;
}
// ---- allocations of the generated code (for poisoning at a restart)
static std::map<void *, size_t> *blocks;
extern "C" {
void *__real_malloc(size_t n); void __real_free(void *p); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (!blocks) blocks = new std::map<void *, size_t>; (*blocks)[p] = n; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (!blocks) blocks = new std::map<void *, size_t>; (*blocks)[p] = a * b; return p; }
void *__wrap_realloc(void *p, size_t n) { if (blocks && p) blocks->erase(p); void *q = __real_realloc(p, n); if (!blocks) blocks = new std::map<void *, size_t>; (*blocks)[q] = n; return q; }
void __wrap_free(void *p) { if (blocks && p) blocks->erase(p); __real_free(p); }
}
// ---- fibers
struct Fiber { ucontext_t ctx; char *stack; size_t size; ShimAct f; int d; ShimMsg *m; bool over = false; };
static ucontext_t sched; static Fiber *cur; static const void *sched_bottom; static size_t sched_size;
void *shim_self() { if (!cur) CkAbort("waiting outside an entry method"); return cur; }
void shim_block() {
  void *fake; __sanitizer_start_switch_fiber(&fake, sched_bottom, sched_size);
  Fiber *me = cur; cur = nullptr; swapcontext(&me->ctx, &sched);
  __sanitizer_finish_switch_fiber(fake, &sched_bottom, &sched_size);
}
static void fiber_main() {
  __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
  Fiber *me = cur; me->f(me->d, me->m); me->over = true; cur = nullptr;
  __sanitizer_start_switch_fiber(nullptr, sched_bottom, sched_size);
  swapcontext(&me->ctx, &sched);
}
void shim_resume(void *p) {
  if (cur) CkAbort("nested resume");
  Fiber *f = (Fiber *)p; cur = f; void *fake;
  __sanitizer_start_switch_fiber(&fake, f->stack, f->size);
  swapcontext(&sched, &f->ctx);
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
  if (f->over) { munmap(f->stack, f->size); delete f; }
}
void shim_spawn(ShimAct g, int d, ShimMsg *m) {
  Fiber *f = new Fiber; f->f = g; f->d = d; f->m = m; f->size = 1 << 21;
  f->stack = (char *)mmap(nullptr, f->size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = f->size; f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, (void (*)())fiber_main, 0);
  shim_resume(f);
}
// ---- input/output
struct FileS { std::string path; std::map<size_t, char> bytes; int sessions = 0; bool open = true; };
struct SessS { int file; size_t n, off, got = 0; std::vector<char> seen; CkCallback done; bool complete = false; };
static std::vector<FileS> files; static std::vector<SessS> sess;
static void fire(const CkCallback &cb, CkMessage *m, const char *what) {
  const int old = shim_sender; shim_sender = -2;
  if (cb.target >= 0) shim_deliver_cb(cb.ep, cb.target, m ? m->clone() : nullptr);
  else for (int i = 0; i < ncharesF(); i++) shim_deliver_cb(cb.ep, i, m ? m->clone() : nullptr);
  delete m; shim_sender = old;
}
static void finish_session(int s) { sess[s].complete = true; auto *m = new CkReductionMsg; fire(sess[s].done, m, "session complete"); }
namespace Ck { namespace IO {
void open(std::string path, CkCallback cb, Options) { files.push_back({path}); auto *m = new FileReadyMsg; m->file.id = (int)files.size() - 1; fire(cb, m, "opened"); }
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete) {
  if (f.id < 0 || f.id >= (int)files.size() || !files[f.id].open) { shim_violation("io", "session on a file that is not open"); return; }
  SessS s; s.file = f.id; s.n = bytes; s.off = offset; s.seen.assign(bytes, 0); s.done = complete; sess.push_back(s); files[f.id].sessions++;
  auto *m = new SessionReadyMsg; m->session.id = (int)sess.size() - 1; fire(ready, m, "session ready");
  if (bytes == 0) finish_session((int)sess.size() - 1);
}
void write(Session t, const char *data, size_t bytes, size_t offset) {
  if (t.id < 0 || t.id >= (int)sess.size()) { shim_violation("io", "write without a session"); return; }
  SessS &s = sess[t.id];
  if (offset < s.off || offset + bytes > s.off + s.n) { shim_violation("io", (files[s.file].path + ": write outside the session, offset " + std::to_string(offset)).c_str()); return; }
  for (size_t i = 0; i < bytes; i++) { char &c = s.seen[offset - s.off + i]; if (c) { shim_violation("io", (files[s.file].path + ": a byte written twice, offset " + std::to_string(offset + i)).c_str()); return; } c = 1; files[s.file].bytes[offset + i] = data[i]; }
  s.got += bytes;
  if (s.got == s.n) finish_session(t.id);
}
void close(File f, CkCallback cb) {
  FileS &F = files.at(f.id); F.open = false;
  FILE *o = fopen(F.path.c_str(), "w"); for (auto &kv : F.bytes) fputc(kv.second, o); fclose(o);
  auto *m = new CkReductionMsg; fire(cb, m, "closed");
}
} }
// ---- reductions
struct Red { std::vector<double> acc; int n = 0; CkCallback cb; bool data = false; CkReduction::reducerType t; std::vector<std::vector<double>> parts; };
static std::map<long, Red> reds; static std::map<int, long> redno;
void shim_contribute(int who, size_t n, const double *v, CkReduction::reducerType t, const CkCallback &cb) {
  const long k = redno[who]++;
  Red &r = reds[k]; r.cb = cb; r.t = t;
  if (r.n && r.parts.back().size() != n) shim_violation("reduction", "contributions of different lengths");
  r.parts.push_back(std::vector<double>(v, v + n)); r.n++;
  if (r.n == ncharesF()) {
    std::shuffle(r.parts.begin(), r.parts.end(), gen);
    CkReductionMsg *m = nullptr;
    if (n) { std::vector<double> a = r.parts[0]; for (size_t i = 1; i < r.parts.size(); i++) for (size_t j = 0; j < n; j++) a[j] = t == CkReduction::max_double ? std::fmax(a[j], r.parts[i][j]) : t == CkReduction::min_double ? std::fmin(a[j], r.parts[i][j]) : a[j] + r.parts[i][j];
      m = new CkReductionMsg; m->d.assign((char *)a.data(), (char *)(a.data() + n)); }
    Red rr = r; reds.erase(k);
    fire(rr.cb, m, "reduction");
  }
}
// ---- checkpoint
static int pending_checkpoint = 0; static CkCallback ck_cb;
void CkStartCheckpoint(const char *, const CkCallback &cb) { pending_checkpoint = 1; ck_cb = cb; }
static void do_checkpoint() {
  pending_checkpoint = 0; ncheckpoints++;
  std::vector<std::vector<char>> packs(ncharesF());
  for (int i = 0; i < ncharesF(); i++) {
    PUP::er sz; sz.mode = 0; shim_pup(i, sz);
    PUP::er pk; pk.mode = 1; pk.buf = &packs[i]; shim_pup(i, pk);
    if (packs[i].size() != sz.pos) shim_violation("pup", "sizing and packing disagree");
  }
  if (ncheckpoints == restart_at) {
    nrestarts++;
    long lost = 0; for (auto &c : chan) if (c.first.second >= 0) lost += (long)c.second.size();
    chan.clear();
    fprintf(logf_, "RESTART %d lost-in-flight %ld\n", ncheckpoints, lost);
    std::map<void *, size_t> old; if (blocks) old.swap(*blocks);
    for (int i = 0; i < ncharesF(); i++) shim_renew(i);
    for (auto &b : old) __asan_poison_memory_region(b.first, b.second);
    for (int i = 0; i < ncharesF(); i++) {
      PUP::er up; up.mode = 2; up.buf = &packs[i]; shim_pup(i, up);
      if (up.pos != packs[i].size()) shim_violation("pup", "unpacking reads fewer bytes than were packed");
    }
  }
  fire(ck_cb, nullptr, "checkpoint done");
}
// ---- step records
static FILE *trace;
void shim_record(int nn, double time, int x, int y, int z, const int *n, int ngf, const double *g) {
  int h[8] = {nn, x, y, z, n[0], n[1], n[2], ngf};
  fwrite(h, 4, 8, trace); fwrite(&time, 8, 1, trace); fwrite(g, 8, (size_t)n[0] * n[1] * n[2] * ngf, trace);
}
void shim_note(const char *what, int who) { fprintf(logf_, "NOTE %s %d\n", what, who); }
static long env(const char *n, long d) { const char *e = getenv(n); return e ? atol(e) : d; }
int main(int argc, char **argv) {
  policy = (int)env("SHIM_POLICY", 0); gen.seed(env("SHIM_SEED", 1)); restart_at = (int)env("SHIM_RESTART", 0);
  logf_ = fopen("shim.log", "w"); trace = fopen("trace.bin", "wb");
  CkArgMsg am{argc, argv};
  shim_sender = -1;
  shim_main = new Main(&am);
  victim = (int)(gen() % (unsigned long)ncharesF());
  long sincechange = 0;
  std::set<const char *> kinds; std::set<std::pair<int, int>> pairs;
  for (;;) {
    if (pending_checkpoint) do_checkpoint();
    std::vector<std::map<std::pair<int, int>, std::deque<Item>>::iterator> av;
    for (auto it = chan.begin(); it != chan.end();) { if (it->second.empty()) it = chan.erase(it); else { av.push_back(it); ++it; } }
    if (av.empty() || (exiting && shim_all_done())) break;
    size_t pick = 0;
    auto oldest = [&](auto ok) { long b = -1; size_t r = av.size(); for (size_t i = 0; i < av.size(); i++) if (ok(i) && (b < 0 || av[i]->second.front().seq < b)) { b = av[i]->second.front().seq; r = i; } return r; };
    auto random_among = [&](auto ok) { std::vector<size_t> c; for (size_t i = 0; i < av.size(); i++) if (ok(i)) c.push_back(i); return c.empty() ? av.size() : c[gen() % c.size()]; };
    auto any = [&](size_t) { return true; };
    switch (policy) {
    case 0: pick = oldest(any); break;                                                                   // global FIFO
    case 1: pick = random_among(any); break;
    case 2: pick = random_among([&](size_t i) { return av[i]->first.second != victim; }); break;          // one chare lags
    case 3: pick = random_among([&](size_t i) { return av[i]->first.first != victim; }); break;           // messages of one chare are slow
    case 4: { long b = -1; for (size_t i = 0; i < av.size(); i++) if (av[i]->second.back().seq > b) { b = av[i]->second.back().seq; pick = i; } break; }  // newest first
    case 5: pick = random_among([&](size_t i) { return av[i]->first.first != -2; }); break;               // input/output and reductions are slow
    case 6: pick = random_among([&](size_t i) { return (av[i]->first.first * 31 + av[i]->first.second) % 7 < 4; }); break;   // some links are slow
    default: pick = random_among([&](size_t i) { return av[i]->first.first == -2; }); break;              // input/output and reductions are fast
    }
    if (pick >= av.size()) pick = random_among(any);
    if (++sincechange > 40 + (long)(gen() % 400)) { sincechange = 0; victim = (int)(gen() % (unsigned long)ncharesF()); }
    Item it = std::move(av[pick]->second.front()); av[pick]->second.pop_front();
    const int src = av[pick]->first.first, dst = av[pick]->first.second;
    kinds.insert(it.what); pairs.insert({src, dst}); orderhash = orderhash * 1000003ul + (unsigned long)((src + 9) * 1009 + dst + 9) * 31 + strlen(it.what);
    shim_sender = dst; delivered++;
    it.f(it.d, it.m);
    shim_sender = -1;
    if (delivered > env("SHIM_MAX", 400000)) { shim_violation("livelock", "the program does not end"); break; }
  }
  if (!exiting) shim_violation("deadlock", shim_waiting().c_str());
  else if (!shim_all_done()) shim_violation("unfinished", shim_waiting().c_str());
  for (auto &f : files) if (f.open) shim_violation("io", (f.path + ": never closed").c_str());
  for (auto &s : sess) if (!s.complete) shim_violation("io", (files[s.file].path + ": " + std::to_string(s.n - s.got) + " of " + std::to_string(s.n) + " bytes never written").c_str());
  fprintf(logf_, "END delivered %ld kinds %zu pairs %zu order %lu checkpoints %d restarts %d files %zu violations %ld\n", delivered, kinds.size(), pairs.size(), orderhash, ncheckpoints, nrestarts, files.size(), nviol);
  fclose(logf_); fclose(trace); fflush(stdout);
  _exit(nviol ? 43 : 0);
}
"""


def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", "", t)


def match(t, i, a="{", b="}"):
    """index after the bracket that closes t[i]"""
    d = 0
    q = None
    j = i
    while j < len(t):
        c = t[j]
        if q:
            if c == "\\":
                j += 1
            elif c == q:
                q = None
        elif c in "\"'":
            q = c
        elif c == a:
            d += 1
        elif c == b:
            d -= 1
            if d == 0:
                return j + 1
        j += 1
    raise ValueError("unbalanced " + a)


def split_params(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "(<[":
            d += 1
        if c in ")>]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    res = []
    for p in out:
        p = " ".join(p.split())
        if p == "void":
            continue
        m = re.match(r"(.*?)(\w+)\s*\[(.*)\]$", p)
        if m:
            res.append((m.group(1).replace("const ", "").strip(), m.group(2), m.group(3).strip()))
            continue
        m = re.match(r"(.*?[\s&*])(\w+)$", p)
        t = m.group(1).strip()
        res.append((t.rstrip("&").replace("const ", "").strip() if t.endswith("&") else t, m.group(2), None))
    return res


class Entry:
    def __init__(self, name, params, body, attrs):
        self.name, self.params, self.body, self.attrs, self.when = name, params, body, attrs, False

    @property
    def msgparam(self):
        return len(self.params) == 1 and self.params[0][0].endswith("*") and self.params[0][2] is None

    def sig(self):
        return ", ".join((f"const {t} *{n}" if ln else f"{t} {n}") for t, n, ln in self.params)

    def struct(self):
        f = "".join((f"  std::vector<{t}> {n};\n" if ln else f"  {t} {n}{{}};\n") for t, n, ln in self.params)
        r = f"(long){self.params[0][1]}" if self.params and self.params[0][0] == "int" else "0"
        return f"struct Msg_{self.name} : ShimMsg {{\n{f}" + (f"  long _ref() const override {{ return {r}; }}\n" if r != "0" else "") + "};\n"

    def build(self):
        return "".join(f"_m->{n}.assign({n}, {n} + ({ln})); " if ln else f"_m->{n} = {n}; " for _, n, ln in self.params)

    def unpack(self, skip=()):
        o = ""
        for t, n, ln in self.params:
            o += f"{t} *{n} = _m.{n}.data(); (void){n}; " if ln else f"{t} {n} = _m.{n}; (void){n}; "
        return o

    def args(self):
        return ", ".join(f"_m->{n}.data()" if ln else f"_m->{n}" for _, n, ln in self.params)


def parse_entries(block):
    es = []
    i = 0
    while True:
        m = re.compile(r"\bentry\b").search(block, i)
        if not m:
            return es
        j = m.end()
        attrs = ""
        mm = re.compile(r"\s*\[([^\]]*)\]").match(block, j)
        if mm:
            attrs = mm.group(1)
            j = mm.end()
        p = block.index("(", j)
        name = block[j:p].split()[-1]
        e = match(block, p, "(", ")")
        params = split_params(block[p + 1:e - 1])
        k = e
        while block[k].isspace():
            k += 1
        body = None
        if block[k] == "{":
            z = match(block, k)
            body = block[k:z]
            k = z
        es.append(Entry(name, params, body, attrs))
        i = k


def translate(body, entries):
    """structured dagger -> plain code that blocks in get()"""
    out = ""
    i = 0
    tok = re.compile(r"\b(serial|atomic|when|overlap|forall)\b")
    while True:
        m = tok.search(body, i)
        if not m:
            return out + body[i:]
        out += body[i:m.start()]
        i = m.end()
        k = m.group(1)
        if k in ("serial", "atomic"):
            mm = re.compile(r'\s*("[^"]*")?\s*').match(body, i)
            i = mm.end()
            if body[i] != "{":
                raise ValueError("serial without a block")
            e = match(body, i)
            out += body[i:e]
            i = e
        elif k == "when":
            mm = re.compile(r"\s*(\w+)\s*").match(body, i)
            name = mm.group(1)
            i = mm.end()
            ref = None
            if body[i] == "[":
                e = match(body, i, "[", "]")
                ref = body[i + 1:e - 1]
                i = e
                while body[i].isspace():
                    i += 1
            e = match(body, i, "(", ")")
            local = split_params(body[i + 1:e - 1])
            i = e
            ent = entries[name]
            ent.when = True
            mm = re.compile(r'\s*((serial|atomic)\s*("[^"]*")?)?\s*').match(body, i)
            is_serial = bool(mm.group(1))
            i = mm.end()
            if body[i] != "{":
                raise ValueError("unsupported when: " + body[i - 40:i + 40])
            e = match(body, i)
            inner = body[i:e]
            i = e
            dec = ""
            for (t, n, ln), (_, orig, _) in zip(local, ent.params):
                dec += f"{t} *{n} = _m->{orig}.data(); (void){n}; " if ln else f"{t} {n} = _m->{orig}; (void){n}; "
            out += f"{{ Msg_{name} *_m = (Msg_{name} *)this->_st->{name}.get({ref or ''}); {dec} this->_shim_event(\"{name}\");\n{inner if is_serial else translate(inner, entries)} delete _m; }}"
        else:
            raise ValueError("unsupported construct " + k)


def prepare(d):
    d = Path(d)
    ci = strip_comments((d / "timestepping.ci").read_text())
    incs = re.findall(r'^\s*include\s+("[^"]+"|<[^>]+>)\s*;', ci, flags=re.M)
    m = re.search(r"array\s*\[\s*3D\s*\]\s*Timestepping\s*\{", ci)
    blk = ci[m.end() - 1:match(ci, m.end() - 1)]
    ents = parse_entries(blk)
    by = {e.name: e for e in ents}
    cos = {}
    for e in ents:
        if e.body is not None:
            cos[e.name] = translate(e.body, by)
    user = [e for e in ents if e.name != "Timestepping"]
    ctor = by["Timestepping"].params[0][0]
    meth = "".join(f"  void {e.name}({e.sig()});\n" for e in user)
    decl = '#pragma once\n#include "charm_shim.h"\n' + "".join(f"#include {i}\n" for i in incs) + "class Timestepping;\n"
    decl += "".join(e.struct() for e in user)
    decl += "struct Timestepping_st {\n" + "".join(f"  ShimQ {e.name};\n" for e in user if e.when) + "  bool done = false;\n};\n"
    decl += "struct CProxyElement_Timestepping { int _target;\n" + meth + "};\n"
    decl += ("struct CProxy_Timestepping { int _target = -1;\n" + meth +
             "  CProxyElement_Timestepping operator[](const CkArrayIndex3D &i) const { return (*this)(i.x, i.y, i.z); }\n"
             "  CProxyElement_Timestepping operator()(int x, int y, int z) const { if (x < 0 || y < 0 || z < 0 || x >= shim_N[0] || y >= shim_N[1] || z >= shim_N[2]) CkAbort(\"message to a chare that does not exist\"); return {shim_idx(x, y, z)}; }\n"
             f"  static CProxy_Timestepping ckNew({ctor} &in, int a, int b, int c);\n"
             "  void pup(PUP::er &p) { p | _target; }\n};\n")
    decl += "struct CkIndex_Timestepping {\n" + "".join(f"  template <class... A> static int {e.name}(A...) {{ return {k}; }}\n" for k, e in enumerate(user)) + "};\n"
    decl += r"""
struct CBase_Timestepping {
  CkIndex3D thisIndex; CProxy_Timestepping thisProxy; Timestepping_st *_st; int _me; bool usesAtSync = false;
  CBase_Timestepping(); CBase_Timestepping(CkMigrateMessage *);
  void pup(PUP::er &p) {} void __sdag_pup(PUP::er &p) {}
  void contribute(const CkCallback &cb) { shim_contribute(_me, 0, nullptr, CkReduction::nop, cb); }
  void contribute(std::vector<double> &v, CkReduction::reducerType t, const CkCallback &cb) { shim_contribute(_me, v.size(), v.data(), t, cb); }
  void contribute(size_t bytes, const void *v, CkReduction::reducerType t, const CkCallback &cb) { shim_contribute(_me, bytes / sizeof(double), (const double *)v, t, cb); }
};
#define Timestepping_SDAG_CODE public: void _shim_event(const char *what); void _shim_record(int final = 0); @SD@
void shim_deliver_cb(int ep, int dst, CkMessage *m);
void shim_pup(int i, PUP::er &p); void shim_renew(int i); std::string shim_waiting(); bool shim_all_done(); void shim_main_entry(const char *what);
void shim_record(int nn, double time, int x, int y, int z, const int *n, int ngf, const double *g);
class Main; extern Main *shim_main;
"""
    decl = decl.replace("@SD@", " ".join(f"void _sdag_{n}({by[n].sig().replace('const ', '')});" for n in cos))
    (d / "timestepping.decl.h").write_text(decl)
    df = r"""
static std::vector<Timestepping *> objs; static std::vector<Timestepping_st *> sts;
CBase_Timestepping::CBase_Timestepping() { _me = shim_creating; thisIndex = {_me % shim_N[0], (_me / shim_N[0]) % shim_N[1], _me / (shim_N[0] * shim_N[1])}; _st = sts[_me]; }
CBase_Timestepping::CBase_Timestepping(CkMigrateMessage *) : CBase_Timestepping() {}
CProxy_Timestepping CProxy_Timestepping::ckNew(@CT@ &in, int a, int b, int c) {
  shim_N[0] = a; shim_N[1] = b; shim_N[2] = c;
  std::vector<char> buf; PUP::er pk; pk.mode = 1; pk.buf = &buf; pk | in;
  for (int i = 0; i < a * b * c; i++) sts.push_back(new Timestepping_st);
  for (int i = 0; i < a * b * c; i++) {
    shim_creating = i;
    @CT@ *cp = (@CT@ *)::operator new(sizeof(@CT@)); memset((void *)cp, 0xff, sizeof(@CT@)); new (cp) @CT@;
    PUP::er up; up.mode = 2; up.buf = &buf; up | *cp;
    void *mem = ::operator new(sizeof(Timestepping)); memset(mem, 0xa5, sizeof(Timestepping));
    objs.push_back(new (mem) Timestepping(std::move(*cp)));
  }
  return CProxy_Timestepping();
}
void shim_renew(int i) { shim_creating = i; memset((void *)objs[i], 0xa5, sizeof(Timestepping)); new (objs[i]) Timestepping((CkMigrateMessage *)nullptr); }
void shim_pup(int i, PUP::er &p) { @PUP@ }
void shim_main_entry(const char *what) { if (!strcmp(what, "done") && shim_sender >= 0 && !sts[shim_sender]->done) { sts[shim_sender]->done = true; objs[shim_sender]->_shim_record(1); } }
bool shim_all_done() { for (auto *s : sts) if (!s->done) return false; return true; }
std::string shim_waiting() { std::string r; int shown = 0; for (size_t i = 0; i < sts.size(); i++) { if (sts[i]->done) continue; if (++shown > 6) break; r += "chare " + std::to_string(i) + " waits for";
@WAIT@ r += "; "; } return r; }
void Timestepping::_shim_record(int final) {
  const params_struct &p = griddata_chare[0].params; int n[3] = {p.Nxx_plus_2NGHOSTS0, p.Nxx_plus_2NGHOSTS1, p.Nxx_plus_2NGHOSTS2};
  shim_record(final ? -1 : commondata.nn, commondata.time, thisIndex.x, thisIndex.y, thisIndex.z, n, NUM_EVOL_GFS, griddata_chare[0].gridfuncs.y_n_gfs);
}
void Timestepping::_shim_event(const char *what) { if (!strcmp(what, "continue_timestepping")) _shim_record(); }
"""
    df = df.replace("@CT@", ctor)
    df = df.replace("@PUP@", "objs[i]->pup(p);" if "pup(PUP::er" in (d / "timestepping.h").read_text() else "")
    df = df.replace("@WAIT@", "".join(f"  if (sts[i]->{e.name}.waiting()) r += \" {e.name}\";\n" for e in user if e.when))
    for e in user:
        M = f"Msg_{e.name}"
        if e.when:
            df += f"static void _act_{e.name}(int _d, ShimMsg *_b) {{ objs[_d]->_st->{e.name}.push(_b); }}\n"
        else:
            call = f"_sdag_{e.name}" if e.body is not None else e.name
            waits = e.body is not None and "_st->" in cos[e.name]
            df += f"static void {'_run_' if waits else '_act_'}{e.name}(int _d, ShimMsg *_b) {{ {M} *_m = ({M} *)_b; objs[_d]->{call}({e.args()}); delete _m; }}\n"
            if waits:
                df += f"static void _act_{e.name}(int _d, ShimMsg *_b) {{ shim_spawn(_run_{e.name}, _d, _b); }}\n"
        post = f"{M} *_m = new {M}; {e.build()} shim_post(_d, \"{e.name}\", _act_{e.name}, _m);"
        df += f"void CProxyElement_Timestepping::{e.name}({e.sig()}) {{ const int _d = _target; {post} }}\n"
        if e.msgparam:
            df += f"void CProxy_Timestepping::{e.name}({e.sig()}) {{ CkAbort(\"broadcast of a message object\"); }}\n"
        else:
            df += f"void CProxy_Timestepping::{e.name}({e.sig()}) {{ for (int _d = 0; _d < (int)objs.size(); _d++) {{ {post} }} }}\n"
    df += "void shim_deliver_cb(int ep, int dst, CkMessage *m) { CProxyElement_Timestepping el{dst}; switch (ep) {\n"
    for k, e in enumerate(user):
        if e.msgparam:
            df += f"  case {k}: el.{e.name}(static_cast<{e.params[0][0]}>(m)); return;\n"
        elif not e.params:
            df += f"  case {k}: delete m; el.{e.name}(); return;\n"
    df += "  default: CkAbort(\"callback to an entry method of another kind\"); } }\n"
    for n, body in cos.items():
        mark = " this->_st->done = true;" if n == "start" else ""
        df += f"void Timestepping::_sdag_{n}({by[n].sig().replace('const ', '')}) {{ {body}\n{mark} }}\n"
    (d / "timestepping.def.h").write_text(df)
    mi = strip_comments((d / "main.ci").read_text())
    m = re.search(r"mainchare\s+Main\s*\{", mi)
    ments = [e for e in parse_entries(mi[m.end() - 1:match(mi, m.end() - 1)]) if e.name != "Main"]
    mdecl = '#pragma once\n#include "charm_shim.h"\n#include "timestepping.decl.h"\n'
    mdecl += "struct CProxy_Main { int _target = -1;\n" + "".join(f"  void {e.name}({e.sig()});\n" for e in ments) + "  void pup(PUP::er &p) {}\n};\n"
    mdecl += "struct CBase_Main { CProxy_Main thisProxy; CBase_Main() {} CBase_Main(CkMigrateMessage *) {} void pup(PUP::er &p) {} };\n"
    (d / "main.decl.h").write_text(mdecl)
    mdef = "Main *shim_main;\n"
    for e in ments:
        if e.params:
            raise ValueError("Main entry with arguments")
        mdef += f"void CProxy_Main::{e.name}() {{ shim_main_entry(\"{e.name}\"); shim_post(-1, \"{e.name}\", [](int, ShimMsg *) {{ shim_main->{e.name}(); }}, nullptr); }}\n"
    (d / "main.def.h").write_text(mdef)
    (d / "ckio.h").write_text(LIGHT)
    for f in ("pup.h", "pup_stl.h", "charm++.h"):
        (d / f).write_text('#include "ckio.h"\n')
    (d / "charm_shim.h").write_text(HEAVY)
    (d / "shim_rt.cpp").write_text(RUNTIME)
    return {e.name: e for e in user}
