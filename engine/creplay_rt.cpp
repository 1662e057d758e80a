// Native runtime for replays of concurrent counterexamples: enforces the order of shared accesses found by the solver.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
using u64 = uint64_t;
static const int SH = 20;
static const u64 HEAP = 0x100000;
struct Ev { int t; char k; u64 a, n; int stale; u64 v; };
static std::vector<Ev> evs;
static std::vector<std::vector<size_t>> mine; // per thread: indices of its events
static std::map<u64, u64> atoms;
static std::map<std::string, std::vector<u64>> inputs;
static std::map<std::string, u64> hid;
struct Obj { u64 size; bool live; std::vector<uint8_t> init; };
static std::unordered_map<u64, Obj> objs;
static int NT = 0;
static std::mutex mx;
static std::condition_variable cv;
static size_t turn = 0;
static size_t free_from = 0; // number of scheduled events of the threads
static std::vector<size_t> pos;
static std::vector<bool> fin;
static int rr = 0;
static std::vector<u64> freeSteps;
static thread_local int me = -1; // -1 setup, 0..NT-1 threads, NT final
static thread_local u64 nobj = 0, nin = 0;
static thread_local int64_t live_delta = 0;
static int64_t live_sum = 0;
static u64 outs[64];
struct UserPanic {};

[[noreturn]] static void die(int c) { fflush(stdout); _exit(c); }
static void pass_on() { for (int i = 1; i <= NT; i++) { int q = (rr + i) % NT; if (!fin[q]) { rr = q; return; } } }

// blocks until the event may happen; returns the event if it is one of the schedule
static Ev *wait_turn(std::unique_lock<std::mutex> &lk, char k, u64 a, u64 n) {
  size_t p = pos[me];
  if (p < mine[me].size()) {
    size_t gi = mine[me][p];
    Ev &e = evs[gi];
    if (e.a != a || e.n != n || (e.k != k && k != '?')) {
      printf("DIVERGED thread %d event %zu: expected %c %#lx+%lu, got %c %#lx+%lu\n", me + 1, gi, e.k, e.a, e.n, k, a, n);
      die(50);
    }
    cv.wait(lk, [&] { return turn == gi; });
    pos[me]++;
    return &e;
  }
  // after the schedule: fair round robin
  cv.wait(lk, [&] { return turn >= free_from; });
  if (me < NT) {
    cv.wait(lk, [&] { return rr == me; });
    if (++freeSteps[me] > 3000) {
      bool all = true;
      for (int i = 0; i < NT; i++) if (!fin[i] && freeSteps[i] < 1000) all = false;
      if (all) { printf("DEADLOCK unfinished threads repeat the same accesses without progress\n"); die(46); }
    }
  }
  return nullptr;
}
static void end_turn(Ev *e, char k, u64 a, u64 n, int o) {
  printf("E %d %c %lu %lu %d\n", me, k, a, n, o);
  if (e) {
    turn++;
    // events of threads come first, then those of the final phase
  } else if (me < NT) pass_on();
  cv.notify_all();
}
static bool overlaps(u64 a, u64 n, std::vector<std::pair<u64, u64>> &r) {
  auto it = atoms.lower_bound(a > 8 ? a - 8 : 0);
  for (; it != atoms.end() && it->first < a + n; ++it)
    if (it->first + it->second > a) r.push_back(*it);
  return !r.empty();
}
static void bounds(u64 a, u64 n, const char *w) {
  u64 id = a >> SH;
  if (a < 4096) { printf("MEMORY %s of null pointer\n", w); die(45); }
  if (id < HEAP || id >= HEAP * 64) return;
  auto it = objs.find(id);
  if (it == objs.end()) { printf("MEMORY %s of unknown object %#lx\n", w, a); die(45); }
  if (!it->second.live) { printf("MEMORY %s of freed memory\n", w); die(45); }
  if ((a & ((1 << SH) - 1)) + n > it->second.size) { printf("MEMORY %s out of bounds\n", w); die(45); }
}
static void setinit(u64 a, u64 n, bool v) {
  auto it = objs.find(a >> SH);
  if (it == objs.end()) return;
  u64 o = a & ((1 << SH) - 1);
  for (u64 i = 0; i < n && o + i < it->second.size; i++) it->second.init[o + i] = v;
}
static bool isinit(u64 a, u64 n) {
  auto it = objs.find(a >> SH);
  if (it == objs.end()) return true;
  u64 o = a & ((1 << SH) - 1);
  for (u64 i = 0; i < n && o + i < it->second.size; i++) if (!it->second.init[o + i]) return false;
  return true;
}
static void na(char k, u64 a, u64 n, const char *w) {
  std::unique_lock<std::mutex> lk(mx);
  bounds(a, n, w);
  std::vector<std::pair<u64, u64>> r;
  if (me >= 0 && overlaps(a, n, r))
    for (auto &x : r) { Ev *e = wait_turn(lk, k, x.first, x.second); end_turn(e, k, x.first, x.second, 0); }
  if (k == 'R') { if (!isinit(a, n)) printf("UNINIT read of %#lx+%lu\n", a, n); }
  else if (k == 'W') setinit(a, n, true);
}
static u64 rdmem(u64 a, u64 n) { u64 v = 0; memcpy(&v, (void *)a, n); return v; }
static void wrmem(u64 a, u64 n, u64 v) { memcpy((void *)a, &v, n); }
extern "C" {
void *vpr_do_setup();
void vpr_do_thread(int, void *);
void vpr_do_final(void *);
void vpr_r(void *p, u64 n) { na('R', (u64)p, n, "read"); }
void vpr_w(void *p, u64 n) { na('W', (u64)p, n, "write"); }
static u64 atomic_op(u64 a, u64 n, char k, int o, int o2, u64 (*f)(u64, u64, u64, bool *), u64 x, u64 y, bool *wrote) {
  std::unique_lock<std::mutex> lk(mx);
  bounds(a, n, "atomic access");
  std::vector<std::pair<u64, u64>> r;
  if (!isinit(a, n) && k != 'W') printf("UNINIT atomic read of %#lx\n", a);
  if (me < 0 || !overlaps(a, n, r)) {
    u64 old = rdmem(a, n); bool w = false; u64 nv = f(old, x, y, &w);
    if (w) { wrmem(a, n, nv); setinit(a, n, true); }
    *wrote = w; return old;
  }
  Ev *e = wait_turn(lk, '?', r[0].first, r[0].second);
  u64 old = rdmem(a, n);
  if (e && e->k != 'W' && old != e->v) {
    if (!e->stale) { printf("DIVERGED value at %#lx: expected %lu, memory has %lu\n", a, e->v, old); die(50); }
    old = e->v; // weak memory: an older write is read
  }
  bool w = false; u64 nv = f(old, x, y, &w);
  char kk = k == 'W' ? 'W' : w ? 'U' : 'R';
  if (e && e->k != kk) { printf("DIVERGED kind at %#lx: expected %c, got %c\n", a, e->k, kk); die(50); }
  if (w) { wrmem(a, n, nv); setinit(a, n, true); }
  *wrote = w;
  end_turn(e, kk, r[0].first, r[0].second, k == 'C' && !w ? o2 : o);
  return old;
}
static u64 mask(u64 n) { return n >= 8 ? ~0ull : (1ull << (8 * n)) - 1; }
u64 vpr_al(void *p, u64 n, int o) { bool w; return atomic_op((u64)p, n, 'R', o, o, [](u64 old, u64, u64, bool *) { return old; }, 0, 0, &w); }
void vpr_as(void *p, u64 n, u64 v, int o) { bool w; atomic_op((u64)p, n, 'W', o, o, [](u64, u64 x, u64, bool *w) { *w = true; return x; }, v, 0, &w); }
struct P2 { u64 a, b; };
P2 vpr_cas(void *p, u64 n, u64 e, u64 v, int o1, int o2) {
  bool w;
  u64 old = atomic_op((u64)p, n, 'C', o1, o2, [](u64 old, u64 x, u64 y, bool *w) { *w = old == x; return y; }, e & mask(n), v, &w);
  return {old, w};
}
u64 vpr_rmw(void *p, u64 n, int op, u64 v, int o) {
  bool w;
  u64 m = mask(n);
  u64 pk = (u64)op | (n << 8);
  return atomic_op((u64)p, n, 'U', o, o, [](u64 old, u64 x, u64 pk, bool *w) {
    *w = true; u64 n = pk >> 8; int64_t so = old, sx = x; int sh = 64 - 8 * n; so = (so << sh) >> sh; sx = (sx << sh) >> sh;
    switch (pk & 255) { case 0: return x; case 1: return old + x; case 2: return old - x; case 3: return old & x; case 4: return old | x; case 5: return old ^ x;
      case 6: return old > x ? old : x; case 7: return old < x ? old : x; case 8: return (u64)(so > sx ? so : sx); case 9: return (u64)(so < sx ? so : sx); default: return ~(old & x); } }, v & m, pk, &w);
}
void vpr_memcpy(void *d, void *s, u64 n, bool) {
  if (!n) return;
  std::unique_lock<std::mutex> lk(mx);
  bounds((u64)s, n, "memcpy read"); bounds((u64)d, n, "memcpy write");
  std::vector<std::pair<u64, u64>> r;
  if (me >= 0) {
    if (overlaps((u64)s, n, r)) for (auto &x : r) { Ev *e = wait_turn(lk, 'R', x.first, x.second); end_turn(e, 'R', x.first, x.second, 0); }
    r.clear();
    if (overlaps((u64)d, n, r)) for (auto &x : r) { Ev *e = wait_turn(lk, 'W', x.first, x.second); end_turn(e, 'W', x.first, x.second, 0); }
  }
  std::vector<uint8_t> in(n);
  for (u64 i = 0; i < n; i++) in[i] = isinit((u64)s + i, 1);
  memmove(d, s, n);
  for (u64 i = 0; i < n; i++) setinit((u64)d + i, 1, in[i]);
}
void vpr_memset(void *d, int v, u64 n, bool) {
  std::vector<std::pair<u64, u64>> r;
  bool ov;
  { std::unique_lock<std::mutex> lk(mx); if (n) bounds((u64)d, n, "memset"); ov = me >= 0 && n && overlaps((u64)d, n, r); }
  if (!ov) { std::unique_lock<std::mutex> lk(mx); memset(d, v, n); setinit((u64)d, n, true); return; }
  for (u64 i = 0; i < n; i++) { na('W', (u64)d + i, 1, "memset"); ((uint8_t *)d)[i] = v; }
}
void *vpr_alloc(u64 n, u64) {
  std::unique_lock<std::mutex> lk(mx);
  u64 id;
  if (me < 0) id = HEAP + 0x1000 + nobj;
  else {
    char b[80]; snprintf(b, 80, "%d %lu %lu", me, nobj, n);
    auto it = hid.find(b);
    static u64 extra = HEAP * 48;
    id = it != hid.end() ? it->second : extra++;
  }
  nobj++; live_delta++;
  u64 a = id << SH;
  void *p = mmap((void *)a, 1 << SH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)a) { printf("DIVERGED cannot place object\n"); die(50); }
  Obj o; o.size = n; o.live = true; o.init.assign(n, 0); objs[id] = o;
  return p;
}
void *vpr_alloc_zeroed(u64 n, u64 al) { void *p = vpr_alloc(n, al); vpr_memset(p, 0, n, false); return p; }
void vpr_dealloc(void *p, u64 n) {
  std::unique_lock<std::mutex> lk(mx);
  auto it = objs.find((u64)p >> SH);
  if (it == objs.end() || ((u64)p & ((1 << SH) - 1))) { printf("MEMORY free of an invalid pointer\n"); die(45); }
  if (!it->second.live) { printf("MEMORY double free\n"); die(45); }
  if (it->second.size != n) { printf("MEMORY free with wrong size\n"); die(45); }
  std::vector<std::pair<u64, u64>> r;
  if (me >= 0 && overlaps((u64)p, n, r)) {
    Ev *e = wait_turn(lk, 'R', r[0].first, r[0].second); end_turn(e, 'R', r[0].first, r[0].second, 0);
    if (!it->second.live) { printf("MEMORY double free\n"); die(45); }
    for (auto &x : r) { Ev *e = wait_turn(lk, 'W', x.first, x.second); end_turn(e, 'W', x.first, x.second, 0); }
  }
  live_delta--; it->second.live = false;
}
void *vpr_realloc(void *p, u64 old, u64 al, u64 n) {
  void *q = vpr_alloc(n, al); u64 k = old < n ? old : n;
  if (k) vpr_memcpy(q, p, k, false);
  vpr_dealloc(p, old); return q;
}
int vpr_memcmp(void *a, void *b, u64 n) {
  for (u64 i = 0; i < n; i++) {
    vpr_r((uint8_t *)a + i, 1); vpr_r((uint8_t *)b + i, 1);
    int x = ((uint8_t *)a)[i], y = ((uint8_t *)b)[i];
    if (x != y) return x > y ? 1 : -1;
  }
  return 0;
}
void vpr_unexpected() { printf("UNEXPECTED function\n"); die(51); }
uint64_t vp_any(uint32_t) {
  std::string k = me < 0 ? "main" : "t" + std::to_string(me);
  auto &v = inputs[k]; return nin < v.size() ? v[nin++] : (nin++, 0);
}
void vp_assume(bool c) { if (!c) { printf("ASSUME\n"); die(44); } }
void vp_assert(bool c, uint32_t id) { if (!c) { printf("ASSERT %u thread %d\n", id, me + 1); die(42); } }
void vp_reach(uint32_t) {}
void vp_out(u64 s, u64 v) { std::unique_lock<std::mutex> lk(mx); outs[s] = v; }
u64 vp_get(u64 s) { std::unique_lock<std::mutex> lk(mx); return outs[s]; }
u64 vp_heap_live() { return (u64)live_delta; }
u64 vp_concrete(u64 x) { return x; }
}
extern "C" void vpr_panic() { throw UserPanic(); }
extern "C" void vp_panic() { throw UserPanic(); }
extern "C" uint32_t vp_try(void (*f)(void *), void *d) { try { f(d); return 0; } catch (UserPanic &) { return 1; } }

int main(int, char **av) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  FILE *f = fopen(av[1], "r");
  char w[64];
  while (fscanf(f, "%60s", w) == 1) {
    if (!strcmp(w, "threads")) { if (fscanf(f, "%d", &NT) != 1) return 60; mine.resize(NT + 1); }
    else if (!strcmp(w, "input")) { char k[64]; if (fscanf(f, "%60s", k) != 1) return 60; auto &v = inputs[k]; u64 x; int c; while ((c = fgetc(f)) == ' ') { if (fscanf(f, "%lu", &x) == 1) v.push_back(x); else break; } }
    else if (!strcmp(w, "hid")) { u64 t, n, s, i; if (fscanf(f, "%lu %lu %lu %lu", &t, &n, &s, &i) != 4) return 60; char b[80]; snprintf(b, 80, "%lu %lu %lu", t, n, s); hid[b] = i; }
    else if (!strcmp(w, "atom")) { u64 a, n; if (fscanf(f, "%lu %lu", &a, &n) != 2) return 60; atoms[a] = n; }
    else if (!strcmp(w, "ev")) { Ev e; if (fscanf(f, "%d %c %lu %lu %d %lu", &e.t, &e.k, &e.a, &e.n, &e.stale, &e.v) != 6) return 60; mine[e.t].push_back(evs.size()); evs.push_back(e); }
  }
  pos.assign(NT + 1, 0); fin.assign(NT + 1, false); freeSteps.assign(NT + 1, 0);
  printf("START\n");
  void *c = nullptr;
  try { c = vpr_do_setup(); } catch (UserPanic &) { printf("PANIC setup\n"); die(43); }
  free_from = evs.size();
  while (free_from > 0 && evs[free_from - 1].t == NT) free_from--;
  live_sum = live_delta;
  std::vector<std::thread> ts;
  bool panicked = false;
  for (int i = 0; i < NT; i++) ts.emplace_back([&, i] {
    me = i; nobj = 0; nin = 0; live_delta = 0;
    try { vpr_do_thread(i, c); } catch (UserPanic &) { std::unique_lock<std::mutex> lk(mx); printf("PANIC thread %d\n", i + 1); panicked = true; }
    std::unique_lock<std::mutex> lk(mx);
    if (pos[i] < mine[i].size()) { printf("DIVERGED thread %d ends before its event %zu\n", i + 1, mine[i][pos[i]]); die(50); }
    live_sum += live_delta; fin[i] = true; if (rr == i) pass_on(); cv.notify_all();
  });
  for (auto &t : ts) t.join();
  me = NT; nobj = 0; nin = 0; live_delta = live_sum;
  try { vpr_do_final(c); } catch (UserPanic &) { printf("PANIC final\n"); die(43); }
  printf("DONE%s\n", panicked ? " (a thread panicked)" : "");
  die(0);
}
