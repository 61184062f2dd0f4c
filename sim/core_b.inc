// Part B: threads, processes, choices and the scheduler.
struct VC
{
  uint32_t c[MAX_THREADS + 2];
};
static int nthreads = 0;  // threads created in this run
static inline void vc_join(VC& a, const VC& b)
{
  for (int i = 0; i <= nthreads; i++)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}
static inline void vc_zero(VC& a) { memset(&a, 0, sizeof a); }

struct File;
struct Proc
{
  int pid;
  Str name;
  bool alive = true;
  bool got_signal = false;
  int64_t stalled_until = 0;
  uint64_t points = 0;
  uint64_t kill_at = 0;
  Vec<File*> fds;
  Vec<uint8_t> cloexec;
  bool ign_pipe = false;
  int parent = 0;
  bool reaped = false;
  Vec<std::function<void()>*> on_kill;
  Vec<unsigned long> free_tids;
  unsigned long ntids = 0;
  unsigned long tid_off = 0;
  bool exited = false;
  int fd_base = 100;    // lower numbers are taken by other code of the process
  int fd_limit = 1000;  // RLIMIT_NOFILE
  Vec<uint8_t> fd_ever;
  bool stdin_closed = false;  // number 0 is free as well
};

enum TState : uint8_t
{
  T_READY,
  T_BLOCKED,
  T_DONE
};
enum WaitKind : uint8_t
{
  W_OTHER,
  W_MUTEX,
  W_RWLOCK,
  W_JOIN,
  W_IO,
  W_SLEEP
};
struct TlsDtor
{
  void (*fn)(void*);
  void* obj;
};
struct Thread
{
  int idx;  // 1..
  Str name;
  int go = 0;  // futex word
  TState st = T_READY;
  WaitKind wk = W_OTHER;
  uintptr_t wobj = 0;
  bool (*pred)(void*) = nullptr;
  void* parg = nullptr;
  int64_t deadline = INT64_MAX;
  int64_t paused_until = 0;
  Proc* proc;
  Proc* home;
  int quiet = 0;
  int in_core = 0;
  unsigned long fake = 0;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false;
  bool joined = false;
  uint32_t prio = 0;
  uint32_t weight = 16;
  VC vc;
  VC acq_pending;
  VC rel_fence;
  Vec<TlsDtor> dtors;
  uintptr_t cs[64];  // shadow call stack (pcs)
  int csd = 0;
  uint64_t accesses = 0;
  void* altstack = nullptr;
  bool woken = false;
  uint64_t wait_seq = 0;
  int holding = 0;
  int nofault = 0;
  Vec<File*> holds;
  void* forkctx = nullptr;
  uintptr_t stack_top = 0;
};
static Thread* threads[MAX_THREADS + 2];
static __thread Thread* me = nullptr;
static Vec<Proc*>* procs;

// ---- results shared with the parent -------------------------------------------------------------------------------
struct Probe
{
  char name[40];
  uint64_t n;
};
struct Result
{
  int status;  // 0 running, 1 ok, 2 violation, 3 inconclusive
  char prop[8];
  char cls[40];
  char msg[6000];
  uint64_t hash, sched_hash, points, switches, preempts;
  int64_t simtime;
  uint64_t faults[sim::F_COUNT];
  uint64_t nthreads, nprocs, accesses, syscalls;
  int nprobes;
  Probe probes[64];
  uint64_t ops;
  uint64_t cover_new;
};
static Result* R;
static uint8_t* cover_map;  // shared bitmap of (preempted point, resumed point) pairs
static const size_t COVER_BITS = 1 << 20;

// ---- configuration -----------------------------------------------------------------------------------------------
static uint64_t g_seed;
static const char* g_prop = "";
static bool g_trace = false;
static const char* g_dump = nullptr;
static uint64_t g_step_cap = 6000000;
static int64_t g_coarse = 0;  // granularity of the wall clock

// ---- choices --------------------------------------------------------------------------------------------------------
struct Rng
{
  uint64_t s;
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static Rng rW, rS, rF, rP;
struct IV
{
  uint64_t i;
  uint64_t v;
};
static bool replay = false;
static Vec<uint64_t>* logW;
static Vec<IV>* logS;
static Vec<IV>* logF[sim::F_COUNT];
static Vec<uint64_t>* inW;
static Vec<IV>* inS;
static Vec<IV>* inF[sim::F_COUNT];
static size_t posW, posS, posF[sim::F_COUNT];
static uint64_t cntF[sim::F_COUNT];
static uint32_t pmF[sim::F_COUNT];
static bool faults_on = true;

static uint64_t H = 1469598103934665603ULL;
static inline void hmix(uint64_t v) { H = (H ^ v) * 1099511628211ULL; H ^= H >> 29; }
static uint64_t SH = 1469598103934665603ULL;

static int64_t g_now = 1000000000;        // monotonic ns
static int64_t g_realtime_off = 1700000000LL * 1000000000LL;
static uint64_t g_points = 0;
static uint64_t g_switches = 0;

enum Policy
{
  POL_RANDOM,
  POL_PCT,
  POL_WEIGHT
};
static Policy policy = POL_RANDOM;
static uint32_t p_switch = 100;  // per mille
static uint64_t pct_change[4];
static int64_t point_cost = 300;

static void finish(int status, const char* prop, const char* cls, const char* msg) __attribute__((noreturn));
static Str backtrace_str(Thread* t, uintptr_t pc);
static void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char* fmt, ...)
{
  if (!g_trace)
    return;
  char b[700];
  int n = snprintf(b, sizeof b, "%10lld #%-6llu %-4s %-12s ", (long long)(g_now - 1000000000) / 1000,
                   (unsigned long long)g_points, me ? me->proc->name.c_str() : "-", me ? me->name.c_str() : "-");
  va_list ap;
  va_start(ap, fmt);
  int m = vsnprintf(b + n, sizeof b - size_t(n) - 2, fmt, ap);
  va_end(ap);
  n += m;
  if (n > int(sizeof b) - 2)
    n = int(sizeof b) - 2;
  b[n++] = '\n';
  raw_syscall6(SYS_write, 2, (long)b, n, 0, 0, 0);
}

static bool accepted(const char* prop) { return prop[0] == '*' || !g_prop[0] || strcmp(prop, g_prop) == 0; }

// A violation by the generic monitors (crash, race, deadlock, ...) counts for whatever property is being decided.
static void generic_violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void generic_violation(const char* cls, const char* fmt, ...)
{
  char b[5000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finish(2, "*", cls, b);
}

static void dump_choices()
{
  if (!g_dump)
    return;
  long fd = raw_syscall6(SYS_openat, AT_FDCWD, (long)g_dump, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
  if (fd < 0)
    return;
  Str o;
  char b[64];
  auto put = [&](const char* s) { o += s; };
  o += "{\"W\":[";
  for (size_t i = 0; i < logW->size(); i++)
  {
    snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long)(*logW)[i]);
    put(b);
  }
  o += "],\"S\":[";
  for (size_t i = 0; i < logS->size(); i++)
  {
    snprintf(b, sizeof b, "%s[%llu,%llu]", i ? "," : "", (unsigned long long)(*logS)[i].i, (unsigned long long)(*logS)[i].v);
    put(b);
  }
  o += "],\"F\":{";
  bool first = true;
  for (int k = 0; k < sim::F_COUNT; k++)
  {
    if (logF[k]->empty())
      continue;
    o += first ? "\"" : ",\"";
    first = false;
    o += sim::fault_names[k];
    o += "\":[";
    for (size_t i = 0; i < logF[k]->size(); i++)
    {
      snprintf(b, sizeof b, "%s[%llu,%llu]", i ? "," : "", (unsigned long long)(*logF[k])[i].i,
               (unsigned long long)(*logF[k])[i].v);
      put(b);
    }
    o += "]";
  }
  o += "}}\n";
  size_t off = 0;
  while (off < o.size())
  {
    long w = raw_syscall6(SYS_write, fd, (long)(o.data() + off), (long)(o.size() - off), 0, 0, 0);
    if (w <= 0)
      break;
    off += size_t(w);
  }
  raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
}

static void finish(int status, const char* prop, const char* cls, const char* msg)
{
  trace("FINISH status=%d %s %s: %s", status, prop, cls, msg);
  snprintf(R->prop, sizeof R->prop, "%s", prop);
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  snprintf(R->msg, sizeof R->msg, "%s", msg);
  for (const char* p = R->msg; *p; p++)
    hmix(uint64_t(*p));
  R->hash = H;
  R->sched_hash = SH;
  R->points = g_points;
  R->switches = g_switches;
  R->simtime = g_now - 1000000000;
  R->nthreads = uint64_t(nthreads);
  R->nprocs = procs->size();
  dump_choices();
  __atomic_store_n(&R->status, status, __ATOMIC_SEQ_CST);
  raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

namespace sim
{
const char* const fault_names[F_COUNT] = { "eintr_select", "eintr_read", "eintr_send", "eintr_accept", "short_read",
                                           "short_send", "frag_send", "socket_fail", "bind_fail", "listen_fail",
                                           "connect_fail", "accept_fail", "fd_theft", "timejump", "stall",
                                           "oversleep", "clockjump", "kill", "tidreuse", "disk_short",
                                           "disk_full", "spurious", "heapreuse", "noise", "garbage",
                                           "peer_drop", "fork_fail", "late_bind", "exec_fail", "pause", "thread_fail", "source_fail" };
uint64_t choose(uint64_t n)
{
  if (n == 0)
    n = 1;
  uint64_t v;
  if (replay)
    v = posW < inW->size() ? (*inW)[posW] % n : 0;
  else
    v = rW.below(n);
  posW++;
  logW->push_back(v);
  hmix(v * 31 + 7);
  return v;
}
int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(choose(uint64_t(hi - lo + 1))); }
uint64_t fault_val(Fault k, uint64_t n)
{
  uint64_t i = cntF[k]++;
  uint64_t v = 0;
  if (replay)
  {
    auto& in = *inF[k];
    size_t& p = posF[k];
    while (p < in.size() && in[p].i < i)
      p++;
    if (p < in.size() && in[p].i == i && faults_on)
      v = (in[p].v - 1) % n + 1;
  }
  else if (faults_on && pmF[k] && rF.below(1000) < pmF[k])
    v = 1 + rF.below(n);
  if (v)
  {
    logF[k]->push_back({ i, v });
    R->faults[k]++;
    hmix(uint64_t(k) * 1000003 + v);
    trace("fault %s = %llu", fault_names[k], (unsigned long long)v);
  }
  return v;
}
bool fault(Fault k) { return fault_val(k, 1) != 0; }
void fault_count(Fault k) { R->faults[k]++; }
void enable_exact(Fault k, uint32_t pm) { pmF[k] = pm; }
void enable(Fault k, uint32_t pm)
{
  switch (choose(4))
  {
    case 0: pmF[k] = 0; break;
    case 1: pmF[k] = pm; break;
    case 2: pmF[k] = pm / 4 ? pm / 4 : 1; break;
    case 3: pmF[k] = pm * 3 > 900 ? 900 : pm * 3; break;
  }
}
void faults_off()
{
  faults_on = false;
  for (auto p : *procs)
    p->stalled_until = 0;
  for (int i = 1; i <= nthreads; i++)
    threads[i]->paused_until = 0;
  trace("faults off");
}
bool faults_active() { return faults_on; }
}  // namespace sim

// ---- deadlines --------------------------------------------------------------------------------------------------------
struct DL
{
  bool used;
  int64_t at;
  const char* prop;
  const char* what;
  int tidx;
};
static DL dls[32];
static int64_t next_dl = INT64_MAX;
static void dl_update()
{
  next_dl = INT64_MAX;
  for (auto& d : dls)
    if (d.used && d.at < next_dl)
      next_dl = d.at;
}
static Str thread_states();
static void dl_check()
{
  for (auto& d : dls)
    if (d.used && d.at <= g_now)
    {
      Thread* t = threads[d.tidx];
      if (!t->home->alive)
      {
        d.used = false;
        continue;
      }
      if (!accepted(d.prop))
        finish(3, d.prop, "other-property", d.what);
      char b[4000];
      snprintf(b, sizeof b, "%s did not return in bounded time; %s", d.what, thread_states().c_str());
      finish(2, d.prop, "stuck", b);
    }
  dl_update();
}

// ---- scheduling ---------------------------------------------------------------------------------------------------------
static void futex_wait(int* a, int v) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int* a) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void park()
{
  while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0)
    futex_wait(&me->go, 0);
  me->go = 0;
}
static void park_forever()
{
  for (;;)
  {
    int z = 0;
    futex_wait(&z, 0);
  }
}

static inline bool proc_runnable(Proc* p) { return p->alive && p->stalled_until <= g_now; }
static bool runnable(Thread* t)
{
  if (t->st == T_DONE || !proc_runnable(t->home))
    return false;
  if (t->st == T_READY)
    return t->paused_until <= g_now;
  if (t->deadline <= g_now)
    return true;
  if (t->pred)
  {
    Thread* m = me;
    m->quiet++;
    bool r = t->pred(t->parg);
    m->quiet--;
    return r;
  }
  return false;
}

static Str thread_states()
{
  Str s;
  char b[400];
  static const char* wk[] = { "waiting", "mutex", "rwlock", "join", "io", "sleep" };
  for (int i = 1; i <= nthreads; i++)
  {
    Thread* t = threads[i];
    if (t->st == T_DONE || !t->home->alive)
      continue;
    snprintf(b, sizeof b, "[%s/%s %s%s%s at %s] ", t->home->name.c_str(), t->name.c_str(), t->st == T_READY ? "ready" : "blocked:",
             t->st == T_READY ? "" : wk[t->wk], t->deadline != INT64_MAX && t->st != T_READY ? "(timed)" : "",
             backtrace_str(t, 0).c_str());
    s += b;
    if (s.size() > 3000)
      break;
  }
  return s;
}

static void cover(uint32_t a, uint32_t b)
{
  uint64_t h = (uint64_t(a) * 0x9E3779B1u) ^ (uint64_t(b) * 0x85EBCA77u) * 31;
  h ^= h >> 17;
  h %= COVER_BITS;
  uint8_t bit = uint8_t(1u << (h & 7));
  uint8_t old = __atomic_fetch_or(&cover_map[h >> 3], bit, __ATOMIC_RELAXED);
  if (!(old & bit))
    R->cover_new++;
}
static inline uint32_t where(Thread* t) { return t->csd > 0 ? uint32_t(t->cs[(t->csd - 1) & 63]) : 0; }

static void switch_to(Thread* t)
{
  if (t == me)
    return;
  g_switches++;
  SH = (SH ^ (uint64_t(t->idx) * 0x100000001b3ULL + g_points)) * 1099511628211ULL;
  SH ^= SH >> 31;
  hmix(uint64_t(t->idx));
  cover(where(me), where(t));
  trace("-> %s/%s", t->proc->name.c_str(), t->name.c_str());
  Thread* self = me;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex_wake(&t->go);
  if (self->st == T_DONE)
    park_forever();
  park();
}

static uint64_t replay_choice(uint64_t idx)
{
  auto& in = *inS;
  while (posS < in.size() && in[posS].i < idx)
    posS++;
  if (posS < in.size() && in[posS].i == idx)
    return in[posS].v;
  return 0;
}

static void proc_kill(Proc* p, const char* how);
static void check_kill(Proc* p)
{
  if (p->kill_at && p->points >= p->kill_at && p->alive && faults_on)
  {
    R->faults[sim::F_KILL]++;
    proc_kill(p, "killed");
  }
}

static uint64_t pick_index(Vec<Thread*>& c)
{
  // returns 0-based index of the chosen candidate (recording side only)
  if (faults_on && policy == POL_PCT)
  {
    size_t b = 0;
    for (size_t i = 1; i < c.size(); i++)
      if (c[i]->prio > c[b]->prio)
        b = i;
    return b;
  }
  if (faults_on && policy == POL_WEIGHT)
  {
    uint64_t tot = 0;
    for (auto t : c)
      tot += t->weight;
    uint64_t r = rS.below(tot);
    for (size_t i = 0; i < c.size(); i++)
    {
      if (r < c[i]->weight)
        return i;
      r -= c[i]->weight;
    }
  }
  return rS.below(c.size());
}

static Vec<Thread*>* cand;

// The current thread cannot continue (blocked, done or dead) or voluntarily re-evaluates: pick somebody.
static void reschedule()
{
  for (;;)
  {
    g_points++;
    if (g_points > g_step_cap)
      generic_violation("livelock", "no end after %llu scheduling points; %s", (unsigned long long)g_points, thread_states().c_str());
    if (g_now >= next_dl)
      dl_check();
    auto& c = *cand;
    c.clear();
    // order: round robin starting after me
    for (int k = 1; k <= nthreads; k++)
    {
      int i = (me->idx - 1 + k) % nthreads + 1;
      if (runnable(threads[i]))
        c.push_back(threads[i]);
    }
    uint64_t idx = g_points;
    if (!c.empty())
    {
      uint64_t ch;
      if (replay)
        ch = replay_choice(idx) % c.size();
      else
        ch = c.size() > 1 ? pick_index(c) : 0;
      if (ch)
        logS->push_back({ idx, ch });
      Thread* t = c[ch];
      if (t == me)
        return;
      switch_to(t);
      return;
    }
    // nobody can run: advance time
    int64_t nx = INT64_MAX;
    for (int i = 1; i <= nthreads; i++)
    {
      Thread* t = threads[i];
      if (t->st == T_DONE || !t->home->alive)
        continue;
      int64_t d = t->st == T_READY ? std::max(g_now, t->paused_until) : t->deadline;
      if (d < t->home->stalled_until)
        d = t->home->stalled_until;
      if (t->st == T_BLOCKED && t->deadline == INT64_MAX)
      {
        if (t->home->stalled_until > g_now)
          d = t->home->stalled_until;
        else
          d = INT64_MAX;
      }
      if (d > g_now && d < nx)
        nx = d;
    }
    if (next_dl < nx)
      nx = next_dl;
    if (nx == INT64_MAX)
      generic_violation("deadlock", "nothing can run any more; %s", thread_states().c_str());
    g_now = nx;
  }
}

static void point(uint32_t kind)
{
  Thread* t = me;
  if (!t || t->quiet || t->in_core)
    return;
  g_points++;
  t->accesses = 0;
  t->home->points++;
  if (t->proc != t->home)
    t->proc->points++;
  g_now += point_cost;
  hmix(kind);
  if (g_points > g_step_cap)
    generic_violation("livelock", "no end after %llu scheduling points; %s", (unsigned long long)g_points, thread_states().c_str());
  if (g_now >= next_dl)
    dl_check();
  if (t->home->kill_at)
    check_kill(t->home);
  if (!t->home->alive)
  {
    reschedule();  // never comes back
    park_forever();
  }
  uint64_t idx = g_points;
  uint64_t ch = 0;
  if (replay)
  {
    ch = replay_choice(idx);
    if (!ch && proc_runnable(t->home))
      return;
  }
  else
  {
    bool want;
    if (!faults_on)
      want = rS.below(1000) < 150;
    else if (policy == POL_PCT)
    {
      for (int i = 0; i < 4; i++)
        if (pct_change[i] == idx)
          t->prio = uint32_t(i);  // lowest priorities
      want = true;
    }
    else
      want = rS.below(1000) < p_switch;
    if (!want && proc_runnable(t->home))
    {
      // a timer may fire early relative to the progress of the running threads
      return;
    }
  }
  auto& c = *cand;
  c.clear();
  for (int k = 1; k < nthreads; k++)
  {
    int i = (t->idx - 1 + k) % nthreads + 1;
    if (runnable(threads[i]))
      c.push_back(threads[i]);
  }
  if (!proc_runnable(t->home))
  {
    reschedule();
    return;
  }
  if (c.empty())
    return;
  if (!replay)
  {
    if (faults_on && policy == POL_PCT)
    {
      size_t b = pick_index(c);
      if (c[b]->prio <= t->prio)
        return;
      ch = b + 1;
    }
    else
      ch = pick_index(c) + 1;
  }
  logS->push_back({ idx, ch });
  Thread* n = c[(ch - 1) % c.size()];
  R->preempts++;
  if (faults_on)
    if (uint64_t v = sim::fault_val(sim::F_PAUSE, 20))
      t->paused_until = g_now + int64_t(v * v) * 1000000;
  switch_to(n);
}

// Block until pred (may be null) or deadline. Returns true if pred holds.
static bool block_raw(bool (*pred)(void*), void* arg, int64_t deadline, WaitKind wk, uintptr_t wobj)
{
  Thread* t = me;
  // A timer may fire late relative to others, or time may pass while runnable threads are not scheduled.
  if (deadline != INT64_MAX && wk == W_SLEEP)
  {
    if (uint64_t v = sim::fault_val(sim::F_OVERSLEEP, 60))
      deadline += int64_t(v) * 1000000;
  }
  if (faults_on && sim::fault(sim::F_TIMEJUMP))
  {
    int64_t nx = deadline;
    for (int i = 1; i <= nthreads; i++)
    {
      Thread* o = threads[i];
      if (o != t && o->st == T_BLOCKED && o->home->alive && o->deadline < nx)
        nx = o->deadline;
    }
    if (nx != INT64_MAX && nx > g_now)
      g_now = nx;
  }
  if (faults_on)
  {
    if (uint64_t v = sim::fault_val(sim::F_STALL, 8))
      t->home->stalled_until = g_now + int64_t(v) * 60 * 1000000;
    if (uint64_t v = sim::fault_val(sim::F_CLOCKJUMP, 100))
      g_realtime_off += (int64_t(v) - 60) * 1000000000LL;
  }
  t->pred = pred;
  t->parg = arg;
  t->deadline = deadline;
  t->wk = wk;
  t->wobj = wobj;
  t->st = T_BLOCKED;
  reschedule();
  t->st = T_READY;
  t->deadline = INT64_MAX;
  t->pred = nullptr;
  t->wk = W_OTHER;
  t->wobj = 0;
  bool ok = true;
  if (pred)
  {
    t->quiet++;
    ok = pred(arg);
    t->quiet--;
  }
  return ok;
}
template <class F>
static bool block_until(F&& f, int64_t deadline, WaitKind wk, uintptr_t wobj = 0)
{
  using FF = typename std::remove_reference<F>::type;
  return block_raw([](void* a) { return bool((*(FF*)a)()); }, (void*)&f, deadline, wk, wobj);
}

// ---- call stacks ----------------------------------------------------------------------------------------------------------
static Str backtrace_str(Thread* t, uintptr_t pc)
{
  Str s;
  char b[32];
  auto add = [&](uintptr_t a) {
    if (a < EXE_END)
      snprintf(b, sizeof b, "%s@%lx", s.empty() ? "" : "<", (unsigned long)a);
    else
      snprintf(b, sizeof b, "%slib", s.empty() ? "" : "<");  // shared libraries move between processes
    s += b;
  };
  if (pc)
    add(pc);
  for (int k = 0; k < 7 && t->csd - 1 - k >= 0 && k < 64; k++)
    add(t->cs[(t->csd - 1 - k) & 63]);
  return s;
}
