// Part D: threads, locks, clocks. Everything here is interposed over libc.
template <class F>
static F real_fn(const char* name)
{
  void* p = dlsym(RTLD_NEXT, name);
  if (!p)
    mem_die("sim: missing libc symbol\n");
  return (F)p;
}
#define REAL(ret, name, ...)                                                                                           \
  static ret (*r_##name)(__VA_ARGS__);                                                                                 \
  if (!r_##name)                                                                                                       \
    r_##name = real_fn<ret (*)(__VA_ARGS__)>(#name);

static const unsigned long FAKE_BASE = 0x7f3200000700UL;
static Proc* mk_proc(const char* name)
{
  // ids of all lengths, sometimes equal in their low 8 or 16 bits
  static const int bases[] = { 4001, 1, 97, 996, 9990, 99999, 3900000 }, gaps[] = { 7, 7, 1, 256, 1000, 65536 };
  static int next_pid = bases[rP.below(7)], gap = gaps[rP.below(6)];
  Proc* p = new (core_alloc(sizeof(Proc))) Proc;
  p->pid = next_pid;
  next_pid += gap;
  p->name = name;
  procs->push_back(p);
  return p;
}
static Proc* proc_of(int pid)
{
  for (auto p : *procs)
    if (p->pid == pid)
      return p;
  return nullptr;
}
static unsigned long new_fake(Proc* p)
{
  if (!p->free_tids.empty() && sim::fault(sim::F_TIDREUSE))
  {
    unsigned long v = p->free_tids.back();
    p->free_tids.pop_back();
    return v;
  }
  p->ntids++;
  return FAKE_BASE + (p->ntids + p->tid_off) * 0x801000UL;
}

static void* trampoline(void* a);
static Thread* mk_thread(Proc* proc, const char* name, void* (*start)(void*), void* arg)
{
  if (nthreads >= MAX_THREADS)
    finish(3, "", "limit", "too many threads");
  Thread* t = new (core_alloc(sizeof(Thread))) Thread;
  memset(&t->vc, 0, sizeof(VC));
  memset(&t->acq_pending, 0, sizeof(VC));
  memset(&t->rel_fence, 0, sizeof(VC));
  t->idx = ++nthreads;
  threads[t->idx] = t;
  t->proc = t->home = proc;
  char b[40];
  snprintf(b, sizeof b, "%s", name);
  t->name = b;
  t->start = start;
  t->arg = arg;
  t->fake = new_fake(proc);
  t->prio = uint32_t(100 + rP.below(100000));
  t->weight = 1u << (rP.below(4) * 2);
  if (me)
  {
    t->vc = me->vc;
    tick();
  }
  t->vc.c[t->idx] = 1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  uintptr_t st = STACK_BASE + STACK_ONE * uintptr_t(t->idx);
  pthread_attr_setstack(&at, (void*)st, STACK_ONE);
  raw_syscall6(SYS_mprotect, (long)st, 4096, PROT_NONE, 0, 0, 0);
  t->altstack = core_alloc(65536);
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
  pthread_t real;
  int r = r_pthread_create(&real, &at, trampoline, t);
  if (r)
    finish(3, "", "limit", "real pthread_create failed");
  return t;
}
static void thread_exit_common(Thread* t)
{
  while (!t->dtors.empty())
  {
    auto d = t->dtors.back();
    t->dtors.pop_back();
    d.fn(d.obj);
  }
  trace("thread exits");
  if (t->detached)
    t->proc->free_tids.push_back(t->fake);
  t->st = T_DONE;
  tick();
  reschedule();
  park_forever();
}
static void* trampoline(void* a)
{
  Thread* t = (Thread*)a;
  me = t;
  t->stack_top = (uintptr_t)__builtin_frame_address(0);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = t->altstack;
  ss.ss_size = 65536;
  raw_syscall6(SYS_sigaltstack, (long)&ss, 0, 0, 0, 0, 0);
  park();
  t->ret = t->start(t->arg);
  thread_exit_common(t);
  return nullptr;
}
static Thread* thread_by_fake(unsigned long f)
{
  for (int i = nthreads; i >= 1; i--)
    if (threads[i]->fake == f && threads[i]->home == me->proc && !threads[i]->joined)
      return threads[i];
  for (int i = nthreads; i >= 1; i--)
    if (threads[i]->fake == f && threads[i]->home == me->home && !threads[i]->joined)
      return threads[i];
  return nullptr;
}

// wait-for graph
static Thread* waits_for(Thread* t)
{
  if (t->st != T_BLOCKED || t->deadline != INT64_MAX)
    return nullptr;
  if (t->wk == W_MUTEX)
  {
    pthread_mutex_t* m = (pthread_mutex_t*)t->wobj;
    if (m->__data.__lock && m->__data.__owner > 0 && m->__data.__owner <= nthreads)
      return threads[m->__data.__owner];
  }
  if (t->wk == W_JOIN && t->wobj)
  {
    Thread* o = (Thread*)t->wobj;
    return o->st == T_DONE ? nullptr : o;
  }
  return nullptr;
}
static void check_cycle(Thread* first)
{
  // "me" is about to wait for "first"
  Thread* t = first;
  for (int k = 0; k < MAX_THREADS && t; k++)
  {
    if (t == me)
      generic_violation("deadlock", "%s/%s closes a cycle of waits at %s; %s", me->proc->name.c_str(), me->name.c_str(),
                        backtrace_str(me, 0).c_str(), thread_states().c_str());
    t = waits_for(t);
  }
}

static bool sim_on() { return me != nullptr; }
static bool quiet_on() { return me->quiet || me->in_core; }

extern "C" {
pthread_t pthread_self(void) noexcept
{
  if (!sim_on())
  {
    REAL(pthread_t, pthread_self, void)
    return r_pthread_self();
  }
  return me->fake;
}
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
{
  if (me && me->forkctx)
    generic_violation("fork-escape", "a forked child whose exec failed carries on as a second copy of the program");
  if (!sim_on())
  {
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
    return r_pthread_create(out, at, fn, arg);
  }
  point(1);
  if (sim::fault(sim::F_THREAD_FAIL))
    return EAGAIN;
  char b[24];
  snprintf(b, sizeof b, "t%d", nthreads + 1);
  Thread* t = mk_thread(me->proc, b, fn, arg);
  if (at)
  {
    int ds = 0;
    pthread_attr_getdetachstate(at, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  *out = t->fake;
  trace("create thread %s", b);
  point(2);
  return 0;
}
int pthread_join(pthread_t th, void** ret)
{
  if (!sim_on())
  {
    REAL(int, pthread_join, pthread_t, void**)
    return r_pthread_join(th, ret);
  }
  point(3);
  Thread* t = thread_by_fake(th);
  if (!t || t->detached)
    return ESRCH;
  if (t == me)
    return EDEADLK;
  if (t->st != T_DONE)
  {
    check_cycle(t);
    block_until([t] { return t->st == T_DONE; }, INT64_MAX, W_JOIN, (uintptr_t)t);
  }
  acquire(t->vc);
  t->joined = true;
  t->home->free_tids.push_back(t->fake);
  if (ret)
    *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t th) noexcept
{
  if (!sim_on())
    return 0;
  point(4);
  Thread* t = thread_by_fake(th);
  if (!t)
    return ESRCH;
  t->detached = true;
  if (t->st == T_DONE)
    t->home->free_tids.push_back(t->fake);
  return 0;
}
int pthread_setname_np(pthread_t th, const char* n) noexcept
{
  (void)th;
  return strlen(n) > 15 ? ERANGE : 0;
}
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int sched_yield(void) noexcept
{
  if (sim_on() && !quiet_on())
  {
    // give others a chance whatever the policy is
    Thread* self = me;
    self->prio = self->prio > 10 ? self->prio - 1 : self->prio;
    int64_t until = g_now + 1000;
    block_raw(nullptr, nullptr, until, W_OTHER, 0);
  }
  return 0;
}

// ---- mutexes -------------------------------------------------------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
  memset(m, 0, sizeof *m);
  if (a)
    m->__data.__kind = (*(const int*)a) & 3;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
  (void)m;
  return 0;
}
static int mutex_lock_impl(pthread_mutex_t* m, int64_t deadline, bool tr)
{
  Thread* t = me;
  if (!t)
    return 0;
  if (!quiet_on())
  {
    point(10);
    access((uintptr_t)m, 4, true, true, RA);
  }
  if (m->__data.__lock && m->__data.__owner == t->idx)
  {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
      m->__data.__count++;
      return 0;
    }
    if (tr)
      return EBUSY;
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP)
      return EDEADLK;
    if (deadline == INT64_MAX)
      generic_violation("deadlock", "%s/%s locks a mutex it already holds at %s", t->proc->name.c_str(), t->name.c_str(),
                        backtrace_str(t, 0).c_str());
  }
  if (m->__data.__lock)
  {
    if (tr)
      return EBUSY;
    if (t->quiet)
      finish(3, "", "oracle", "oracle code blocks on a mutex of the system under test");
    if (deadline == INT64_MAX && m->__data.__owner > 0 && m->__data.__owner <= nthreads)
    {
      Thread* o = threads[m->__data.__owner];
      check_cycle(o);
    }
    if (!block_until([m] { return m->__data.__lock == 0; }, deadline, W_MUTEX, (uintptr_t)m))
      return ETIMEDOUT;
    access((uintptr_t)m, 4, true, true, RA);
  }
  m->__data.__lock = 1;
  m->__data.__owner = t->idx;
  m->__data.__count = 1;
  t->holding++;
  acquire(sync_at((uintptr_t)m)->vc);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return mutex_lock_impl(m, INT64_MAX, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return mutex_lock_impl(m, INT64_MAX, true); }
static int64_t abs_to_mono(clockid_t c, const struct timespec* ts)
{
  int64_t v;
  if (__builtin_mul_overflow((int64_t)ts->tv_sec, (int64_t)1000000000, &v) || __builtin_add_overflow(v, (int64_t)ts->tv_nsec, &v))
    return INT64_MAX - 1;
  if (c == CLOCK_REALTIME)
    v -= g_realtime_off;
  return v;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
  return mutex_lock_impl(m, abs_to_mono(CLOCK_REALTIME, ts), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept
{
  return mutex_lock_impl(m, abs_to_mono(c, ts), false);
}
static void mutex_release(pthread_mutex_t* m)
{
  Thread* t = me;
  t->holding--;
  release_join(sync_at((uintptr_t)m)->vc);
  m->__data.__lock = 0;
  m->__data.__owner = 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
  Thread* t = me;
  if (!t)
    return 0;
  if (!quiet_on())
    access((uintptr_t)m, 4, true, true, RA);
  if (!m->__data.__lock || m->__data.__owner != t->idx)
  {
    if (m->__data.__lock == 0 || !t->quiet)
      generic_violation("bad-unlock", "%s/%s unlocks a mutex it does not hold at %s", t->proc->name.c_str(), t->name.c_str(),
                        backtrace_str(t, RA).c_str());
    return EPERM;
  }
  if (--m->__data.__count > 0)
    return 0;
  mutex_release(m);
  point(11);
  return 0;
}

// ---- reader/writer locks: __readers = number of readers, __cur_writer = idx of the writer ---------------------------------------
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept
{
  memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool w, int64_t deadline, bool tr)
{
  if (!me)
    return 0;
  if (!quiet_on())
  {
    point(12);
    access((uintptr_t)l, 4, true, true, RA);
  }
  auto ok = [l, w] { return l->__data.__cur_writer == 0 && (!w || l->__data.__readers == 0); };
  if (!ok())
  {
    if (tr)
      return EBUSY;
    if (l->__data.__cur_writer == me->idx)
      return EDEADLK;
    if (!block_until(ok, deadline, W_RWLOCK, (uintptr_t)l))
      return ETIMEDOUT;
  }
  if (w)
    l->__data.__cur_writer = me->idx;
  else
    l->__data.__readers++;
  acquire(sync_at((uintptr_t)l)->vc);
  if (w)
    acquire(sync_at((uintptr_t)l + 1)->vc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, false, INT64_MAX, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, true, INT64_MAX, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, false, INT64_MAX, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, true, INT64_MAX, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept
{
  return rw_lock(l, false, abs_to_mono(CLOCK_REALTIME, ts), false);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept
{
  return rw_lock(l, true, abs_to_mono(CLOCK_REALTIME, ts), false);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) noexcept
{
  return rw_lock(l, false, abs_to_mono(c, ts), false);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) noexcept
{
  return rw_lock(l, true, abs_to_mono(c, ts), false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
  if (!me)
    return 0;
  if (!quiet_on())
    access((uintptr_t)l, 4, true, true, RA);
  if (l->__data.__cur_writer == me->idx)
  {
    l->__data.__cur_writer = 0;
    release_join(sync_at((uintptr_t)l)->vc);
  }
  else
  {
    if (l->__data.__readers)
      l->__data.__readers--;
    release_join(sync_at((uintptr_t)l + 1)->vc);
  }
  point(13);
  return 0;
}

// ---- condition variables --------------------------------------------------------------------------------------------------------
static uint64_t wait_counter = 0;
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept
{
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
  Thread* t = me;
  point(14);
  access((uintptr_t)c, 4, true, true, RA);
  if (sim::fault(sim::F_SPURIOUS))
  {
    mutex_release(m);
    point(15);
    mutex_lock_impl(m, INT64_MAX, false);
    return 0;
  }
  uint32_t cnt = m->__data.__count;
  mutex_release(m);
  t->woken = false;
  t->wait_seq = ++wait_counter;
  bool ok = block_raw([](void* a) { return ((Thread*)a)->woken; }, t, deadline, W_OTHER, (uintptr_t)c);
  t->wait_seq = 0;
  mutex_lock_impl(m, INT64_MAX, false);
  m->__data.__count = cnt;
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, INT64_MAX); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  return cond_wait_impl(c, m, abs_to_mono(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
  return cond_wait_impl(c, m, abs_to_mono(k, ts));
}
static int wake_waiters(uintptr_t obj, int n)
{
  int done = 0;
  while (done < n)
  {
    Thread* best = nullptr;
    for (int i = 1; i <= nthreads; i++)
    {
      Thread* t = threads[i];
      if (t->st == T_BLOCKED && t->wait_seq && !t->woken && t->wobj == obj && t->home->alive && (!best || t->wait_seq < best->wait_seq))
        best = t;
    }
    if (!best)
      break;
    best->woken = true;
    done++;
  }
  return done;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
  if (!me)
    return 0;
  point(16);
  access((uintptr_t)c, 4, true, true, RA);
  wake_waiters((uintptr_t)c, 1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
  if (!me)
    return 0;
  point(17);
  access((uintptr_t)c, 4, true, true, RA);
  wake_waiters((uintptr_t)c, 1 << 20);
  return 0;
}

// ---- once, static guards -----------------------------------------------------------------------------------------------------------
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if (!me)
  {
    if (*o == 0)
    {
      *o = 1;
      fn();
      *o = 2;
    }
    return 0;
  }
  if (!quiet_on())
  {
    point(18);
    access((uintptr_t)o, 4, true, true, RA);
  }
  for (;;)
  {
    if (*o == 2)
    {
      acquire(sync_at((uintptr_t)o)->vc);
      return 0;
    }
    if (*o == 0)
    {
      *o = 1;
      try
      {
        fn();
      }
      catch (...)
      {
        *o = 0;
        throw;
      }
      *o = 2;
      release_join(sync_at((uintptr_t)o)->vc);
      point(19);
      return 0;
    }
    block_until([o] { return *o != 1; }, INT64_MAX, W_OTHER, (uintptr_t)o);
  }
}
int __cxa_guard_acquire(uint64_t* g)
{
  char* b = (char*)g;
  if (!me)
  {
    return b[0] ? 0 : 1;
  }
  if (!quiet_on())
    point(20);
  for (;;)
  {
    if (b[0])
    {
      acquire(sync_at((uintptr_t)g)->vc);
      return 0;
    }
    if (!b[1])
    {
      b[1] = 1;
      return 1;
    }
    block_until([b] { return b[0] || !b[1]; }, INT64_MAX, W_OTHER, (uintptr_t)g);
  }
}
void __cxa_guard_release(uint64_t* g)
{
  char* b = (char*)g;
  b[1] = 0;
  b[0] = 1;
  if (me)
  {
    release_join(sync_at((uintptr_t)g)->vc);
    if (!quiet_on())
      point(21);
  }
}
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*)
{
  if (me)
    me->dtors.push_back({ fn, obj });
  return 0;
}
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void*)
{
  if (me)
    me->dtors.push_back({ fn, obj });
  return 0;
}

// ---- time -----------------------------------------------------------------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
  if (!sim_on())
    return (int)raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  if (!quiet_on())
    point(22);
  int64_t v = g_now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)
    v += g_realtime_off, v -= g_coarse ? v % g_coarse : 0;
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o)
    *o = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
  if (!sim_on())
    return (int)raw_syscall6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
  point(23);
  block_raw(nullptr, nullptr, g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec, W_SLEEP, 0);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem)
{
  if (!sim_on())
    return 0;
  (void)rem;
  point(23);
  int64_t d = flags & TIMER_ABSTIME ? abs_to_mono(c, ts) : g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec;
  block_raw(nullptr, nullptr, d, W_SLEEP, 0);
  return 0;
}
int usleep(useconds_t us)
{
  struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
  struct timespec ts = { (time_t)s, 0 };
  return (unsigned)nanosleep(&ts, nullptr);
}

// ---- syscall(): libstdc++ waits on futexes for std::future ----------------------------------------------------------------------------
long syscall(long n, ...) noexcept
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!sim_on())
  {
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096)
    {
      errno = int(-r);
      return -1;
    }
    return r;
  }
  if (n == SYS_futex)
  {
    int op = int(b) & 127;
    int* w = (int*)a;
    if (!quiet_on())
    {
      point(24);
      access((uintptr_t)w, 4, false, true, RA);
    }
    if ((op & 63) == FUTEX_WAIT || (op & 63) == FUTEX_WAIT_BITSET)
    {
      if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != int(c))
      {
        errno = EAGAIN;
        return -1;
      }
      if (sim::fault(sim::F_SPURIOUS))
      {
        errno = EINTR;
        return -1;
      }
      int64_t dl = INT64_MAX;
      if (d)
      {
        const struct timespec* ts = (const struct timespec*)d;
        if ((op & 63) == FUTEX_WAIT)
          dl = g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec;
        else
          dl = abs_to_mono(int(b) & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      Thread* t = me;
      t->woken = false;
      t->wait_seq = ++wait_counter;
      bool ok = block_raw([](void* x) { return ((Thread*)x)->woken; }, t, dl, W_OTHER, (uintptr_t)w);
      t->wait_seq = 0;
      if (!ok)
      {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if ((op & 63) == FUTEX_WAKE || (op & 63) == FUTEX_WAKE_BITSET)
      return wake_waiters((uintptr_t)w, int(c));
    finish(3, "", "unsupported", "futex operation");
  }
  if (n == SYS_gettid)
    return me->home->pid * 1000 + me->idx;
  if (n == SYS_getpid)
    return me->proc->pid;
  if (n == SYS_clock_gettime)
    return clock_gettime(clockid_t(a), (struct timespec*)b);
  char m[64];
  snprintf(m, sizeof m, "syscall %ld", n);
  finish(3, "", "unsupported", m);
}
pid_t getpid(void) noexcept
{
  if (!sim_on())
    return (pid_t)raw_syscall6(SYS_getpid, 0, 0, 0, 0, 0, 0);
  return me->proc->pid;
}
pid_t gettid(void) noexcept
{
  if (!sim_on())
    return (pid_t)raw_syscall6(SYS_gettid, 0, 0, 0, 0, 0, 0);
  return me->proc->pid * 1000 + me->idx;
}
}
