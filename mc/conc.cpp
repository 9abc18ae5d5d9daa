// A controlled scheduler and happens-before race detector for code compiled with -fsanitize=thread.
//
// This file provides the __tsan_* entry points the compiler inserts before every memory access and in
// place of every atomic operation, and it interposes the pthread mutex/thread calls that std::mutex and
// std::thread make.  All threads of the program under test are fibers on one kernel thread, so exactly one
// runs at a time and every execution is determined by the choices made at scheduling points:
//   - before a mutex is locked, before an atomic load/store of a flag, at thread creation, join, sleeps.
// Since all other accesses are checked to be ordered by happens-before (vector clocks), scheduling at
// these points covers every behaviour with the given number of preemptions.
//
// Waiting loops.  A thread that returns to a scheduling point it has visited before without having changed
// memory that other threads use is idle: it is suspended until a location it read since that visit is written
// by another thread.  (Re-running such an iteration reads the same values, so nothing is lost.)
//
// This file itself is compiled without instrumentation.
#include <elf.h>
#include <fcntl.h>
#include "conc.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/single_threaded.h>
#include <pthread.h>
#include <time.h>

namespace {
constexpr int T = 8;                       // threads per execution
constexpr size_t kStack = 1 << 20;
constexpr int kTable = 1 << 19;            // shadow entries (8 bytes of memory each)
constexpr int kMaxSteps = 20000;

typedef uint32_t Clk;
struct VC {
  Clk c[T];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < T; i++) c[i] = std::max(c[i], o.c[i]); }
};
struct Cell { Clk clk : 24, mask : 8; };   // clock of the last access, bytes accessed then
struct Slot {                              // accesses of one thread
  Cell w, r, a, aw;                        // plain writes, plain reads, atomic loads, atomic writes
  uint32_t wpc, rpc;                       // code addresses fit: the executable is not position independent
};
struct Entry {
  uintptr_t tag;
  uint32_t gen;
  uint8_t used;                            // threads whose slot is valid
  bool freed;
  uint32_t alloc_epoch, log_seq;           // see Fiber
  Slot s[T];
};
enum OpKind { RUN, LOCK, JOIN, FREE_SWITCH, SETTLE, COND, RDLOCK };
struct Fiber {
  int id = 0;
  void* sp = nullptr;
  char* stack = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  bool done = false, started = false;
  OpKind op = RUN;
  void* obj = nullptr;                     // mutex
  int target = -1;                         // join
  bool signaled = false;                   // condition variable
  VC vc;
  void* eh[2] = {nullptr, nullptr};        // exception-handling state of the thread
  // idle-loop detection
  std::map<std::pair<void*, void*>, size_t> visits;
  struct W { uintptr_t g; uint64_t old; };
  std::vector<W> wlog;                     // 8-byte words written since the log began, with their former value
  uint32_t epoch = 0;                      // names this log: memory allocated since it began need not be logged
  uint32_t seq = 0;                        // names the time since the last visit: a word is logged once in it
  void* idle_pc = nullptr;
  bool idle = false;
  Clk idle_since = 0;                      // reads at or after this clock are being waited on
  std::map<std::pair<void*, void*>, Clk> vclk;
  Clk dirty = 0;                           // newest read of this thread that has been overwritten since
  int forced = 0, soft = 0;
};
struct Mutex { int owner = -1; uint32_t readers = 0; VC vc, rvc; };   // readers: bit per thread (read-write locks)

bool g_on = false;                         // inside run()
int g_live = 0;                            // fibers not done
int g_open = 0;                            // threads created and not joined yet
mc::MC* g_m = nullptr;
int g_bound = 0, g_used = 0;
uint64_t g_steps = 0;
std::vector<Fiber*> g_f;
Fiber* g_cur = nullptr;
Fiber g_root;
std::vector<char*> g_stacks;
std::map<void*, Mutex>* g_mx = nullptr;
std::map<void*, VC>* g_sync = nullptr;
Entry* g_tab = nullptr;
uint32_t g_gen = 0;
int g_entries = 0;
std::exception_ptr g_err;
int g_untracked = 0;
std::string g_trace;
bool g_in = false;                         // inside the runtime (its own allocations are not tracked)
struct In {
  bool old;
  In() : old(g_in) { g_in = true; asm volatile("" ::: "memory"); }
  ~In() { asm volatile("" ::: "memory"); g_in = old; }
};

extern "C" void conc_switch(void** from, void* to);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size conc_switch,.-conc_switch
)");

void** eh_globals() { return (void**)abi::__cxa_get_globals(); }
void go(Fiber* to) {
  Fiber* from = g_cur;
  if (from == to) return;
  void** e = eh_globals();
  from->eh[0] = e[0]; ((uint32_t*)&from->eh[1])[0] = ((uint32_t*)&e[1])[0];
  e[0] = to->eh[0]; ((uint32_t*)&e[1])[0] = ((uint32_t*)&to->eh[1])[0];
  g_cur = to;
  bool in = g_in;
  conc_switch(&from->sp, to->sp);
  g_in = in;
}
// give up on this execution: back to run(), which throws g_err
[[noreturn]] void abandon(std::exception_ptr p) {
  g_err = p;
  g_on = false;
  go(&g_root);
  __builtin_unreachable();
}
std::string where(void* pc) {
  static std::map<void*, std::string> cache;
  auto& s = cache[pc];
  if (!s.empty()) return s;
  char cmd[200], buf[600] = "?";
  snprintf(cmd, sizeof cmd, "addr2line -s -f -C -e /proc/%d/exe 0x%lx 2>/dev/null", (int)getpid(), (unsigned long)pc - 1);
  if (FILE* p = popen(cmd, "r")) {
    std::string r;
    char l[2000];
    while (fgets(l, sizeof l, p)) { if (!r.empty()) r += " at "; r += std::string(l, strcspn(l, "\n")).substr(0, 200); }
    pclose(p);
    snprintf(buf, sizeof buf, "%s", r.c_str());
  }
  return s = buf;
}
[[noreturn]] void violation(const std::string& key, const std::string& msg) { abandon(std::make_exception_ptr(mc::Violation{key, msg})); }

bool ready(Fiber* f) {
  if (f->done) return false;
  if (f->op == LOCK) { auto it = g_mx->find(f->obj); if (it != g_mx->end() && (it->second.owner >= 0 || it->second.readers)) return false; }
  if (f->op == RDLOCK) { auto it = g_mx->find(f->obj); if (it != g_mx->end() && it->second.owner >= 0) return false; }
  if (f->op == COND && !f->signaled) return false;
  if (f->op == SETTLE) return false;
  if (f->op == JOIN && !g_f[f->target]->done) return false;
  return !f->idle;
}
std::string threads() {
  std::string s;
  for (auto f : g_f)
    s += mc::fmt("%s thread %d %s", s.empty() ? "" : ",", f->id,
                 f->done ? "has ended" : f->idle ? mc::fmt("waits in a loop at [%s]", where(f->idle_pc).c_str()).c_str() : f->op == LOCK || f->op == RDLOCK ? "waits for a lock" : f->op == COND ? "waits for a notification" : f->op == JOIN ? "waits for another thread to end" : "is runnable");
  return s;
}
// decides who runs next; the current fiber has set its pending operation
void schedule(bool free_switch) {
  In in;
  if (++g_steps > kMaxSteps) violation("endless", "an execution does not end: " + threads());
  for (;;) {
    Fiber* opt[T];
    int n = 0;
    bool self = g_cur != &g_root && ready(g_cur);
    if (free_switch && self) {
      // a sleeping thread lets the next one in turn go first; anything else counts as a preemption
      int N = (int)g_f.size();
      for (int i = 1; i <= N; i++) {
        Fiber* f = g_f[(g_cur->id + i) % N];
        if (ready(f) && (n == 0 || g_used < g_bound)) opt[n++] = f;
      }
    } else {
      if (self) opt[n++] = g_cur;
      if (!self || g_used < g_bound)
        for (auto f : g_f)
          if (f != g_cur && ready(f)) opt[n++] = f;
    }
    if (n == 0) {
      // nothing can run: a loop judged idle may be a bounded one, so let it go round again
      Fiber *w = nullptr, *settle = nullptr;
      for (auto f : g_f) if (!f->done && f->op == SETTLE) settle = f;
      for (auto f : g_f) {
        if (!f->idle || f->forced >= (settle ? 4 : 40)) continue;
        f->idle = false;
        bool r = ready(f);
        f->idle = true;
        if (r && (!w || f->forced < w->forced)) w = f;
      }
      if (w) { w->idle = false; w->forced++; continue; }
      if (settle) { settle->op = RUN; continue; }
      violation("deadlock", "no thread can continue: " + threads());
    }
    int k = 0;
    if (n > 1) {
      try {
        k = g_m->choose(n);
      } catch (...) {
        abandon(std::current_exception());
      }
    }
    Fiber* next = opt[k];
    bool pre = self && k > 0;
    if (pre) g_used++;
    if (g_m->verbose && next != g_cur) g_m->notes.push_back(mc::fmt("step %d: thread %d runs%s", (int)g_steps, next->id, pre ? " (preemption)" : ""));
    g_m->step();
    if (next != g_cur) go(next);
    return;
  }
}

bool own_stack(Fiber* f, uintptr_t a) { return f->stack && f->id != 0 && a >= (uintptr_t)f->stack && a < (uintptr_t)f->stack + kStack; }
bool tracking() { return g_on && !g_in && !g_untracked && g_open > 0 && g_cur != &g_root; }

// open addressing: what is known about a word must not depend on which other words happen to collide with it
inline Entry* slot(uintptr_t g) {
  for (uintptr_t i = g ^ (g >> 19);; i++) {
    Entry* e = &g_tab[i & (kTable - 1)];
    if (e->gen != g_gen || e->tag == g) return e;
  }
}
Entry* entry(uintptr_t g) {
  Entry* e = slot(g);
  if (e->gen != g_gen) {
    if (++g_entries > kTable / 2) { fprintf(stderr, "conc: an execution touches too much memory\n"); _exit(79); }
    e->gen = g_gen;
    e->tag = g;
    e->used = 0;
    e->freed = false;
    e->alloc_epoch = e->log_seq = 0;
  }
  return e;
}
void race(uintptr_t a, const char* what, void* pc, int other, void* opc, const char* owhat) {
  In in;
  std::string s = mc::fmt("data race: thread %d %s at [%s] and thread %d %s at [%s] without synchronisation", g_cur->id, what, where(pc).c_str(), other, owhat, where(opc).c_str());
  violation("race", s);
}
// kind: 0 read, 1 write, 2 atomic read, 3 atomic write, 4 free
inline void log_write(Entry* e, uintptr_t g) {
  Fiber* f = g_cur;
  if (e->log_seq == f->seq || e->alloc_epoch == f->epoch) return;
  e->log_seq = f->seq;
  f->wlog.push_back({g, *(uint64_t*)(g << 3)});
}
inline void access1(uintptr_t g, uint8_t mask, int kind, void* pc) {
  Entry* e = entry(g);
  int t = g_cur->id;
  VC& vc = g_cur->vc;
  if ((kind == 1 || kind == 3) && g_cur->seq) log_write(e, g);
  if (kind < 2 && e->used == (1 << t)) {
    Cell& c = kind ? e->s[t].w : e->s[t].r;
    if (c.clk == vc.c[t] && (c.mask & mask) == mask) return;
  }
  bool wr = kind == 1 || kind == 3 || kind == 4, at = kind == 2 || kind == 3;
  for (unsigned us = e->used & ~(1u << t); us; us &= us - 1) {
    int u = __builtin_ctz(us);
    Slot& o = e->s[u];
    if (o.w.clk > vc.c[u] && (o.w.mask & mask)) race(g << 3, kind == 4 ? "frees memory" : wr ? "writes" : "reads", pc, u, (void*)(uintptr_t)o.wpc, e->freed ? "frees it" : "writes it");
    if (wr && o.r.clk > vc.c[u] && (o.r.mask & mask)) race(g << 3, kind == 4 ? "frees memory" : "writes", pc, u, (void*)(uintptr_t)o.rpc, "reads it");
    if (!at && o.aw.clk > vc.c[u] && (o.aw.mask & mask)) race(g << 3, wr ? "writes" : "reads", pc, u, (void*)(uintptr_t)o.rpc, "writes it atomically");
    if (!at && wr && o.a.clk > vc.c[u] && (o.a.mask & mask)) race(g << 3, wr ? "writes" : "reads", pc, u, (void*)(uintptr_t)o.rpc, "uses it atomically");
    // wake loops that wait for this location
    if (wr) {
      Fiber* f = g_f[u];
      Clk seen = std::max<Clk>(o.r.clk, std::max<Clk>(o.a.clk, o.aw.clk));
      if (seen > f->dirty) f->dirty = seen;
      if (f->idle && seen && seen >= f->idle_since) { f->idle = false; f->forced = f->soft = 0; }
    }
  }
  Clk now = vc.c[t];
  Slot& s = e->s[t];
  if (!(e->used >> t & 1)) { memset(&s, 0, sizeof s); e->used |= 1 << t; }
  Cell& c = kind == 2 ? s.a : kind == 3 ? s.aw : wr ? s.w : s.r;
  if (c.clk == now) c.mask |= mask;
  else { c.clk = now; c.mask = mask; }
  (wr && !at ? s.wpc : s.rpc) = (uint32_t)(uintptr_t)pc;
  if (kind == 4) e->freed = true;
}
void access(const void* p, size_t size, int kind, void* pc) {
  if (!tracking()) return;
  uintptr_t a = (uintptr_t)p;
  if (own_stack(g_cur, a)) return;
  In in;
  uintptr_t end = a + size;
  while (a < end) {
    uintptr_t g = a >> 3, off = a & 7, n = std::min<uintptr_t>(8 - off, end - a);
    access1(g, (uint8_t)(((1u << n) - 1) << off), kind, pc);
    a += n;
  }
}
uint32_t g_epoch = 0, g_seq = 0;
void forget(Fiber* f) {                    // start the log of writes anew
  f->visits.clear();
  f->vclk.clear();
  f->wlog.clear();
  f->epoch = ++g_epoch;
  f->seq = 0;
}
bool shared_with_others(uintptr_t a, int t) {
  Entry* e = slot(a >> 3);
  return e->gen == g_gen && (e->used & ~(1u << t));
}
// called on arrival at a scheduling point that a waiting loop may go through
void visit(void* pc, void* obj) {
  Fiber* f = g_cur;
  if (g_open == 0) return;
  In in;
  auto key = std::make_pair(pc, obj);
  auto it = f->visits.find(key);
  if (it != f->visits.end()) {
    bool changed = f->dirty >= f->vclk[key], own = false;
    std::set<uintptr_t> seen;
    for (size_t i = it->second; i < f->wlog.size() && !changed; i++) {
      auto& w = f->wlog[i];
      if (!seen.insert(w.g).second) continue;
      if (entry(w.g)->alloc_epoch == f->epoch) continue;
      if (*(uint64_t*)(w.g << 3) == w.old) continue;
      if (shared_with_others(w.g << 3, f->id)) changed = true;
      else own = true;
    }
    // changes only this thread has seen so far: let it go round twice
    if (!changed && own && ++f->soft <= 2) changed = true;
    else if (changed) f->soft = 0;
    if (!changed) {
      f->idle = true;
      f->idle_pc = pc;
      f->idle_since = f->vclk[key];
    } else {
      if (!f->soft) f->forced = 0;
      forget(f);
    }
  }
  if (f->wlog.size() > 20000) forget(f);
  f->visits[key] = f->wlog.size();
  f->seq = ++g_seq;
  f->vclk[key] = f->vc.c[f->id];
}
Mutex& mutex_of(void* m) { return (*g_mx)[m]; }

int owner_of(void* m) { auto it = g_mx->find(m); return it == g_mx->end() ? -1 : it->second.owner; }
void tick(Fiber* f) { f->vc.c[f->id]++; }

void lock(void* m, void* pc) {
  Fiber* f = g_cur;
  f->op = LOCK;
  f->obj = m;
  visit(pc, m);
  if (owner_of(m) == f->id) violation("deadlock", "a thread locks a mutex it already holds at [" + where(pc) + "]");
  schedule(false);
  f->op = RUN;
  In in;
  Mutex& x = mutex_of(m);
  x.owner = f->id;
  f->vc.join(x.vc);
  f->vc.join(x.rvc);
}
void rdlock(void* m, void* pc) {
  Fiber* f = g_cur;
  f->op = RDLOCK;
  f->obj = m;
  visit(pc, m);
  if (owner_of(m) == f->id) violation("deadlock", "a thread locks a lock it already holds at [" + where(pc) + "]");
  schedule(false);
  f->op = RUN;
  In in;
  Mutex& x = mutex_of(m);
  x.readers |= 1u << f->id;
  f->vc.join(x.vc);
}
void rwunlock(void* m, void* pc);
void unlock(void* m, void* pc) {
  Fiber* f = g_cur;
  In in;
  Mutex& x = mutex_of(m);
  if (x.owner != f->id) violation("unlock", "a thread unlocks a mutex it does not hold at [" + where(pc) + "]");
  x.owner = -1;
  x.vc = f->vc;
  tick(f);
}
void rwunlock(void* m, void* pc) {
  Fiber* f = g_cur;
  Mutex& x = mutex_of(m);
  if (!(x.readers >> f->id & 1)) return unlock(m, pc);
  In in;
  x.readers &= ~(1u << f->id);
  x.rvc.join(f->vc);
  tick(f);
}
void cond_wait(void* c, void* m, void* pc) {
  Fiber* f = g_cur;
  unlock(m, pc);
  f->op = COND;
  f->obj = c;
  f->signaled = false;
  schedule(false);
  f->op = RUN;
  lock(m, pc);
}
bool cond_timed(void* c, void* m, void* pc) {       // time may run out at any moment
  Fiber* f = g_cur;
  unlock(m, pc);
  visit(pc, c);
  f->obj = c;
  f->signaled = false;
  f->op = FREE_SWITCH;
  schedule(true);
  bool s = f->signaled;
  f->op = RUN;
  lock(m, pc);
  return s;
}
void cond_wake(void* c, bool all) {
  Fiber* w[T];
  int n = 0;
  for (auto f : g_f)
    if (!f->done && f != g_cur && f->obj == c && (f->op == COND || f->op == FREE_SWITCH) && !f->signaled) w[n++] = f;
  if (n == 0) return;
  In in;
  if (all) { for (int i = 0; i < n; i++) { w[i]->signaled = true; w[i]->idle = false; } return; }
  int k = 0;
  if (n > 1) try { k = g_m->choose(n); } catch (...) { abandon(std::current_exception()); }
  w[k]->signaled = true;
  w[k]->idle = false;
}
void fiber_main() {
  Fiber* f = g_cur;
  g_in = false;
  try {
    f->fn(f->arg);
  } catch (...) {
    abandon(std::current_exception());
  }
  g_in = true;
  f->done = true;
  g_live--;
  f->op = RUN;
  if (g_live == 0) {
    g_on = false;
    go(&g_root);
  }
  schedule(false);
  abort();
}
Fiber* spawn(void* (*fn)(void*), void* arg) {
  if ((int)g_f.size() >= T) violation("threads", "too many threads");
  Fiber* f = new Fiber;
  f->id = (int)g_f.size();
  f->fn = fn;
  f->arg = arg;
  if ((int)g_stacks.size() <= f->id)
    g_stacks.push_back((char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  f->stack = g_stacks[f->id];
  void** s = (void**)(f->stack + kStack - 64);
  *--s = nullptr;                 // alignment
  *--s = (void*)fiber_main;       // return address
  for (int i = 0; i < 6; i++) *--s = nullptr;
  f->sp = s;
  if (g_cur && g_cur != &g_root) {
    f->vc = g_cur->vc;
    tick(g_cur);
  }
  f->vc.c[f->id] = 1;
  f->epoch = ++g_epoch;
  g_f.push_back(f);
  g_live++;
  if (f->id != 0) g_open++;
  return f;
}

// Memory that the explored code allocates comes from an arena that starts afresh with every execution, so that
// which address is used again when is the same in every re-execution (the idle-loop detection compares pointers).
constexpr uintptr_t kArena = 0x200000000000, kArenaSize = 512ull << 20;
constexpr size_t kClasses = 64 + 7;        // multiples of 16 up to 1024, then powers of two up to 128 kB
char* g_bump = nullptr;
void* g_free[kClasses];
char* g_mark = nullptr;                    // blocks of earlier executions that are still in use lie below
long g_above = 0;                          // blocks in use above the mark
bool in_arena(void* p) { return (uintptr_t)p - kArena < kArenaSize; }
int size_class(size_t n) {
  if (n <= 1024) return n ? (int)((n - 1) / 16) : 0;
  int k = 64;
  for (size_t s = 2048; s < n; s *= 2) k++;
  return k;
}
size_t class_size(int k) { return k < 64 ? (k + 1) * 16 : (size_t)2048 << (k - 64); }
void arena_reset() {
  if (!g_bump) {
    void* p = mmap((void*)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)kArena) { fprintf(stderr, "conc: no memory for the arena\n"); _exit(79); }
    g_bump = g_mark = (char*)kArena;
  }
  if (g_above == 0) g_bump = g_mark;
  else g_mark = g_bump;
  g_above = 0;
  memset(g_free, 0, sizeof g_free);
}
void* arena_alloc(size_t n) {
  if (!g_on || g_in || g_cur == &g_root || n > (128 << 10)) return nullptr;
  int k = size_class(n);
  size_t s = class_size(k);
  void* p = g_free[k];
  if (p) {
    g_free[k] = ((void**)p)[1];
  } else {
    if ((uintptr_t)g_bump + s + 16 > kArena + kArenaSize) return nullptr;
    ((size_t*)g_bump)[0] = k;
    p = g_bump + 16;
    g_bump += s + 16;
  }
  { In in; memset(p, 0xb5, s); }
  g_above++;
  return p;
}
size_t arena_size(void* p) { return class_size((int)((size_t*)p)[-2]); }
void arena_free(void* p) {
  if ((char*)p < g_mark) return;
  g_above--;
  if (!g_on || g_in) return;               // after the execution: gone with the next reset
  int k = (int)((size_t*)p)[-2];
  ((void**)p)[1] = g_free[k];
  g_free[k] = p;
}
struct Body { const std::function<void()>* f; };
void* run_body(void* p) { (*((Body*)p)->f)(); return nullptr; }
}  // namespace

namespace conc {
void check(mc::MC& m, bool ok, const std::string& key, const std::string& msg) {
  if (ok) return;
  In in;
  if (!g_on || g_cur == &g_root) { m.check(false, key, msg); return; }
  try {
    m.check(false, key, msg);
  } catch (...) {
    abandon(std::current_exception());
  }
}
bool active() { return g_on; }
int self() { return g_cur ? g_cur->id : -1; }
uint64_t now() { return g_steps; }
Untracked::Untracked() { g_untracked++; }
Untracked::~Untracked() { g_untracked--; }
void progress() {
  if (!g_on || g_cur == &g_root) return;
  In in;
  forget(g_cur);
}
void yield() {
  if (!g_on || g_cur == &g_root) return;
  visit(__builtin_return_address(0), nullptr);
  g_cur->op = FREE_SWITCH;
  schedule(true);
  g_cur->op = RUN;
}
void settle() {
  if (!g_on || g_cur == &g_root) return;
  progress();
  g_cur->op = SETTLE;
  schedule(false);
  g_cur->op = RUN;
}
void run(mc::MC& m, int preemptions, const std::function<void()>& body) {
  if (!g_tab) g_tab = (Entry*)mmap(nullptr, sizeof(Entry) * kTable, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!g_mx) { g_mx = new std::map<void*, Mutex>; g_sync = new std::map<void*, VC>; }
  In in;
  __libc_single_threaded = 0;
  g_gen++;
  g_entries = 0;
  arena_reset();
  g_mx->clear();
  g_sync->clear();
  for (auto f : g_f) delete f;
  g_f.clear();
  g_m = &m;
  g_bound = preemptions;
  g_used = 0;
  g_steps = 0;
  g_live = 0;
  g_open = 0;
  g_untracked = 0;
  g_err = nullptr;
  g_root.id = -1;
  g_cur = &g_root;
  Body b{&body};
  spawn(run_body, &b);
  g_on = true;
  go(g_f[0]);
  g_on = false;
  g_cur = &g_root;
  if (g_err) { auto e = g_err; g_err = nullptr; std::rethrow_exception(e); }
}
}  // namespace conc

// ------------------------------------------------------------------ allocation (own objects only, --wrap)
extern "C" {
size_t malloc_usable_size(void*);
static size_t size_of(void* p) { return in_arena(p) ? arena_size(p) : malloc_usable_size(p); }
static void on_alloc(void* p) {
  if (!p || !g_on || g_in) return;
  size_t n = size_of(p);
  {
    In in;
    auto drop = [&](auto* m) { for (auto it = m->lower_bound(p); it != m->end() && (char*)it->first < (char*)p + n;) it = m->erase(it); };
    drop(g_mx);
    drop(g_sync);
  }
  if (g_open == 0) return;
  uint32_t epoch = tracking() ? g_cur->epoch : 0;
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t g = a >> 3; g < (a + n + 7) >> 3; g++) {
    Entry* e = entry(g);
    e->used = 0;
    e->freed = false;
    e->alloc_epoch = epoch;
  }
}
static void on_free(void* p, void* pc) {
  if (!p || !tracking()) return;
  size_t n = size_of(p);
  In in;
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t g = a >> 3; g < (a + n) >> 3; g++) {
    Entry* e = slot(g);
    if (e->gen == g_gen) access1(g, 0xff, 4, pc);
  }
}
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
static void* take(size_t n) {
  void* p = arena_alloc(n);
  if (!p) p = __real_malloc(n ? n : 1);
  on_alloc(p);
  return p;
}
static void give(void* p, void* pc) {
  on_free(p, pc);
  if (in_arena(p)) arena_free(p);
  else __real_free(p);
}
void* __wrap_malloc(size_t n) { return take(n); }
void* __wrap_calloc(size_t k, size_t n) {
  void* p = arena_alloc(k * n);
  if (p) { In in; memset(p, 0, k * n); }
  else p = __real_calloc(k, n);
  on_alloc(p);
  return p;
}
void* __wrap_realloc(void* q, size_t n) {
  if (!g_on && !in_arena(q)) return __real_realloc(q, n);
  void* p = take(n);
  if (q && p) {
    { In in; memcpy(p, q, std::min(n, size_of(q))); }
    give(q, __builtin_return_address(0));
  }
  return p;
}
void __wrap_free(void* p) { give(p, __builtin_return_address(0)); }
}
static void* make(size_t n) {
  void* p = take(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return make(n); }
void* operator new[](size_t n) { return make(n); }
void operator delete(void* p) noexcept { give(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { give(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { give(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { give(p, __builtin_return_address(0)); }

// ------------------------------------------------------------------ pthread
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_on || g_in || g_cur == &g_root) return 0;
  lock(m, __builtin_return_address(0));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_on || g_in || g_cur == &g_root) return 0;
  visit(__builtin_return_address(0), m);
  g_cur->op = RUN;
  schedule(false);
  In in;
  Mutex& x = mutex_of(m);
  if (x.owner >= 0 || x.readers) return EBUSY;
  x.owner = g_cur->id;
  g_cur->vc.join(x.vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_on || g_in || g_cur == &g_root) return 0;
  unlock(m, __builtin_return_address(0));
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (g_on && !g_in) {
    In in;
    auto it = g_mx->find(m);
    if (it != g_mx->end()) {
      if (it->second.owner >= 0) violation("mutex-destroyed", "a locked mutex is destroyed");
      g_mx->erase(it);
    }
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_on || g_in || g_cur == &g_root) return 0;
  cond_wait(c, m, __builtin_return_address(0));
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) {
  if (!g_on || g_in || g_cur == &g_root) return ETIMEDOUT;
  return cond_timed(c, m, __builtin_return_address(0)) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) {
  if (!g_on || g_in || g_cur == &g_root) return ETIMEDOUT;
  return cond_timed(c, m, __builtin_return_address(0)) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (g_on && !g_in && g_cur != &g_root) cond_wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (g_on && !g_in && g_cur != &g_root) cond_wake(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (g_on && !g_in && g_cur != &g_root) lock(m, __builtin_return_address(0));
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (g_on && !g_in && g_cur != &g_root) rdlock(m, __builtin_return_address(0));
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (g_on && !g_in && g_cur != &g_root) rwunlock(m, __builtin_return_address(0));
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!g_on) { fprintf(stderr, "thread outside of exploration\n"); abort(); }
  Fiber* f;
  {
    In in;
    f = spawn(fn, arg);
  }
  *t = (pthread_t)(f->id + 1);
  g_cur->op = RUN;
  schedule(false);
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!g_on || g_cur == &g_root) return 0;     // what an abandoned execution left is being destroyed
  Fiber* f = g_cur;
  f->op = JOIN;
  f->target = (int)t - 1;
  schedule(false);
  f->op = RUN;
  f->vc.join(g_f[(int)t - 1]->vc);
  g_open--;
  if (r) *r = nullptr;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { conc::yield(); return 0; }
static int sleep_point(void* pc) {
  if (!g_on || g_in || g_cur == &g_root) return 0;
  visit(pc, nullptr);
  g_cur->op = FREE_SWITCH;
  schedule(true);
  g_cur->op = RUN;
  return 0;
}
int __wrap_nanosleep(const timespec*, timespec*) { return sleep_point(__builtin_return_address(0)); }
int __wrap_clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sleep_point(__builtin_return_address(0)); }
int __wrap_usleep(unsigned) { return sleep_point(__builtin_return_address(0)); }
unsigned __wrap_sleep(unsigned) { return sleep_point(__builtin_return_address(0)); }
}

// ------------------------------------------------------------------ instrumentation
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
  void __tsan_read##n(void* p) { access(p, n, 0, PC); }                    \
  void __tsan_write##n(void* p) { access(p, n, 1, PC); }                   \
  void __tsan_unaligned_read##n(void* p) { access(p, n, 0, PC); }          \
  void __tsan_unaligned_write##n(void* p) { access(p, n, 1, PC); }         \
  void __tsan_volatile_read##n(void* p) { access(p, n, 0, PC); }           \
  void __tsan_volatile_write##n(void* p) { access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, 0, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, 1, PC); }
void __tsan_vptr_read(void* p) { access(p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, PC); }
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, 1, PC); return __real_memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
static bool live();
static void acquire(void* a);
static void release(void* a);
extern "C" {      // function-local statics: initialised once, then only read
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (live()) acquire(g); return r; }
void __wrap___cxa_guard_release(uint64_t* g) { if (live()) release(g); __real___cxa_guard_release(g); }
}
static bool live() { return g_on && !g_in && g_cur != &g_root && g_open > 0; }
static void acquire(void* a) { In in; auto it = g_sync->find(a); if (it != g_sync->end()) g_cur->vc.join(it->second); }
static void release(void* a) { In in; (*g_sync)[a].join(g_cur->vc); tick(g_cur); }
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// Guards of function-local statics are not flags anybody waits on: recognised by their symbol.
static void find_guards(std::vector<uintptr_t>& out) {
  int fd = open("/proc/self/exe", O_RDONLY);
  if (fd < 0) return;
  off_t n = lseek(fd, 0, SEEK_END);
  char* b = (char*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  if (b == MAP_FAILED) return;
  auto* eh = (Elf64_Ehdr*)b;
  auto* sec = (Elf64_Shdr*)(b + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sec[i].sh_type != SHT_SYMTAB) continue;
    const char* str = b + sec[sec[i].sh_link].sh_offset;
    auto* sy = (Elf64_Sym*)(b + sec[i].sh_offset);
    for (size_t k = 0; k < sec[i].sh_size / sizeof(Elf64_Sym); k++)
      if (!strncmp(str + sy[k].st_name, "_ZGV", 4)) out.push_back(sy[k].st_value);
  }
  munmap(b, n);
  std::sort(out.begin(), out.end());
}
static bool is_guard(const volatile void* p) {
  static std::vector<uintptr_t>* g = nullptr;
  if (!g) { In in; g = new std::vector<uintptr_t>; find_guards(*g); }
  return std::binary_search(g->begin(), g->end(), (uintptr_t)p);
}
// Loads and stores of atomic flags are scheduling points; reference counters (read-modify-write) are not:
// their operations commute, and which thread releases last is decided at other scheduling points too.
static void flag_point(void* a, void* pc, bool is_load) {
  if (!live()) return;
  if (is_load) visit(pc, a);
  g_cur->op = RUN;
  schedule(false);
}
#define ATOMIC(bits, type)                                                                                                      \
  extern "C" type __tsan_atomic##bits##_load(const volatile type* p, int mo) {                                                  \
    if (bits == 8 && live() && is_guard(p)) { acquire((void*)p); return *p; }                                                   \
    flag_point((void*)p, PC, true);                                                                                             \
    if (live()) { access((void*)p, sizeof(type), 2, PC); if (acq(mo)) acquire((void*)p); }                                      \
    return *p;                                                                                                                  \
  }                                                                                                                             \
  extern "C" void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) {                                               \
    flag_point((void*)p, PC, false);                                                                                            \
    if (live()) { access((void*)p, sizeof(type), 3, PC); if (rel(mo)) release((void*)p); }                                      \
    *p = v;                                                                                                                     \
  }                                                                                                                             \
  static void rmw##bits(volatile type* p, int mo, void* pc) {                                                                   \
    if (!live()) return;                                                                                                        \
    access((void*)p, sizeof(type), 3, pc);                                                                                      \
    if (acq(mo)) acquire((void*)p);                                                                                             \
    if (rel(mo)) release((void*)p);                                                                                             \
  }                                                                                                                             \
  extern "C" type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { flag_point((void*)p, PC, false); rmw##bits(p, mo, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { rmw##bits(p, mo, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }   \
  extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { rmw##bits(p, mo, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }   \
  extern "C" type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { rmw##bits(p, mo, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }   \
  extern "C" type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { rmw##bits(p, mo, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }    \
  extern "C" type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { rmw##bits(p, mo, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }   \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int) {                \
    flag_point((void*)p, PC, true);                                                                                             \
    rmw##bits(p, mo, PC);                                                                                                       \
    if (*p == *e) { *p = v; return 1; }                                                                                         \
    *e = *p;                                                                                                                    \
    return 0;                                                                                                                   \
  }                                                                                                                             \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int fo) {               \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fo);                                                      \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

// ------------------------------------------------------------------ file streams (library code is not instrumented)
#define STREAM_ACCESS(p) do { if (tracking() && (void*)(p) != (void*)&std::cout && (void*)(p) != (void*)&std::cerr) access((void*)(p), 8, 1, PC); } while (0)
extern "C" {
// std::ofstream::open(std::string const&, openmode), close(), ostream << double/long/..., __ostream_insert, endl, flush
void __real__ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode(void*, void*, int);
void __wrap__ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode(void* o, void* s, int m) {
  STREAM_ACCESS(o);
  __real__ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode(o, s, m);
}
void __real__ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv(void*);
void __wrap__ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv(void* o) { STREAM_ACCESS(o); __real__ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv(o); }
void* __real__ZNSo9_M_insertIdEERSoT_(void*, double);
void* __wrap__ZNSo9_M_insertIdEERSoT_(void* o, double d) { STREAM_ACCESS(o); return __real__ZNSo9_M_insertIdEERSoT_(o, d); }
void* __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void*, const char*, long);
void* __wrap__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char* s, long n) {
  STREAM_ACCESS(o);
  return __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(o, s, n);
}
void* __real__ZNSo5flushEv(void*);
void* __wrap__ZNSo5flushEv(void* o) { STREAM_ACCESS(o); return __real__ZNSo5flushEv(o); }
}
