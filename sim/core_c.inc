// Part C: the instrumentation runtime (called by code compiled with -fsanitize=thread; libtsan itself is not linked).
struct SyncVar
{
  VC vc;
};
static UMap<uintptr_t, SyncVar*>* syncs;
static SyncVar* sync_at(uintptr_t a)
{
  auto& s = (*syncs)[a];
  if (!s)
  {
    s = (SyncVar*)core_alloc(sizeof(SyncVar));
    vc_zero(s->vc);
  }
  return s;
}
static SyncVar* sync_find(uintptr_t a)
{
  auto it = syncs->find(a);
  return it == syncs->end() ? nullptr : it->second;
}
static inline void tick() { me->vc.c[me->idx]++; }
static inline void acquire(const VC& v) { vc_join(me->vc, v); }
static inline void release_join(VC& v)
{
  vc_join(v, me->vc);
  tick();
}
static inline void release_store(VC& v)
{
  v = me->vc;
  tick();
}

static void report_mem(const char* cls, uintptr_t addr, size_t size, void* pc)
{
  if (!me || me->in_core)
    return;
  me->in_core++;
  generic_violation(cls, "address offset 0x%lx size %zu by %s/%s at %s", (unsigned long)(addr - HEAP_BASE), size,
                    me->proc->name.c_str(), me->name.c_str(), backtrace_str(me, (uintptr_t)pc).c_str());
}

static void __attribute__((noinline)) race_report(uintptr_t addr, size_t size, bool write, bool at, uint64_t cell, uintptr_t pc)
{
  Thread* t = me;
  // The standard stream objects may be used from several threads at once.
  auto in = [addr](const void* o, size_t n) { return addr - (uintptr_t)o < n; };
  if (in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog) ||
      in(&std::cin, sizeof std::cin))
    return;
  t->in_core++;
  int otid = int(cell & 127);
  Thread* o = threads[otid];
  generic_violation("data-race", "%s%s of %zu bytes by %s/%s at %s races with previous %s%s by %s/%s at @%lx", at ? "atomic " : "",
                    write ? "write" : "read", size, t->proc->name.c_str(), t->name.c_str(), backtrace_str(t, pc).c_str(),
                    (cell >> 16) & 1 ? "atomic " : "", (cell >> 15) & 1 ? "write" : "read", o->proc->name.c_str(), o->name.c_str(),
                    (unsigned long)(cell >> 37));
}

static inline void check_word(Thread* t, uintptr_t word, uint8_t mask, bool write, bool at, uintptr_t pc, uintptr_t addr, size_t size)
{
  uint64_t* s = shadow_of(word);
  if (!s)
    return;
  uint32_t myclk = t->vc.c[t->idx] & 0xFFFFF;
  uint64_t cell = mkcell(uint32_t(t->idx), mask, write, at, myclk, pc);
  int empty = -1, mine = -1;
  for (int i = 0; i < 4; i++)
  {
    uint64_t c = s[i];
    if (c == 0)
    {
      if (empty < 0)
        empty = i;
      continue;
    }
    uint8_t cm = uint8_t(c >> 7);
    int ctid = int(c & 127);
    bool cw = (c >> 15) & 1, ca = (c >> 16) & 1;
    if (ctid == t->idx)
    {
      if ((cm & mask) == cm && (write || !cw) && (!at || ca))
        mine = i;  // superseded
      continue;
    }
    if (!(cm & mask))
      continue;
    if (!(write || cw))
    {
      continue;
    }
    if (at && ca)
      continue;
    uint32_t cclk = uint32_t(c >> 17) & 0xFFFFF;
    if (cclk > t->vc.c[ctid])
      race_report(addr, size, write, at, c, pc);
    else if ((cm & mask) == cm && write)
      s[i] = 0, empty = empty < 0 ? i : empty;  // ordered before us and overwritten: no longer needed
  }
  if (mine >= 0)
    s[mine] = cell;
  else if (empty >= 0)
    s[empty] = cell;
  else
    s[(word >> 3 ^ myclk) & 3] = cell;
}

static void access(uintptr_t a, size_t n, bool write, bool at, uintptr_t pc)
{
  Thread* t = me;
  if (!t || t->quiet || t->in_core || n == 0)
    return;
  if (++t->accesses > 300000000ULL)
    generic_violation("livelock", "%s/%s spins without synchronising at %s", t->proc->name.c_str(), t->name.c_str(),
                      backtrace_str(t, pc).c_str());
  if (in_heap(a))
  {
    uintptr_t g = a & ~uintptr_t(15), e = a + n;
    for (; g < e; g += 16)
    {
      uint8_t h = *hst(g);
      if (h == H_FULL)
        continue;
      uintptr_t hi = e < g + 16 ? e : g + 16;
      if (h >= 2 && h <= 16 && hi <= g + (h - 1))
        continue;
      report_mem(h == H_FREED ? "use-after-free" : "heap-out-of-bounds", a, n, (void*)pc);
      break;
    }
  }
  uintptr_t w = a & ~uintptr_t(7), end = a + n;
  for (; w < end; w += 8)
  {
    uint8_t mask = 0xFF;
    if (w < a)
      mask &= uint8_t(0xFF << (a - w));
    if (w + 8 > end)
      mask &= uint8_t(0xFF >> (w + 8 - end));
    check_word(t, w, mask, write, at, pc, a, n);
  }
}
#define RA ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
  if (me && !me->quiet)
    me->cs[me->csd++ & 63] = (uintptr_t)pc;
}
void __tsan_func_exit(void*)
{
  if (me && !me->quiet && me->csd > 0)
    me->csd--;
}
#define RW(N)                                                                                                          \
  void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, false, RA); }                                         \
  void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, false, RA); }                                         \
  void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, false, RA); }                               \
  void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, false, RA); }                               \
  void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, false, RA); }                                \
  void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { access((uintptr_t)a, size_t(n), false, false, RA); }
void __tsan_write_range(void* a, long n) { access((uintptr_t)a, size_t(n), true, false, RA); }
void __tsan_vptr_update(void** a, void* v)
{
  // Rewriting the same vtable pointer is what constructors and destructors of leaf classes do.
  if (*a != v)
    access((uintptr_t)a, 8, true, false, RA);
}
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, false, RA); }
}

// ---- atomics ----------------------------------------------------------------------------------------------------------------
enum
{
  MO_RELAXED,
  MO_CONSUME,
  MO_ACQUIRE,
  MO_RELEASE,
  MO_ACQ_REL,
  MO_SEQ
};
static inline bool is_acq(int m) { return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ; }
static inline bool is_rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ; }
static void at_before(uintptr_t a, size_t n, bool write, uintptr_t pc, uint32_t kind)
{
  point(kind);
  access(a, n, write, true, pc);
}
static void at_load(uintptr_t a, int mo)
{
  if (!me || me->quiet || me->in_core)
    return;
  SyncVar* s = sync_find(a);
  if (!s)
    return;
  if (is_acq(mo))
    acquire(s->vc);
  else
    vc_join(me->acq_pending, s->vc);
}
static void at_store(uintptr_t a, int mo)
{
  if (!me || me->quiet || me->in_core)
    return;
  SyncVar* s = sync_at(a);
  if (is_rel(mo))
    release_store(s->vc);
  else
    s->vc = me->rel_fence;
}
static void at_rmw(uintptr_t a, int mo)
{
  if (!me || me->quiet || me->in_core)
    return;
  SyncVar* s = sync_at(a);
  if (is_acq(mo))
    acquire(s->vc);
  else
    vc_join(me->acq_pending, s->vc);
  if (is_rel(mo))
    release_join(s->vc);
  else
    vc_join(s->vc, me->rel_fence);
}
static void forget_sync(uintptr_t a, size_t n)
{
  if (!syncs || syncs->empty() || n > 4096)
    return;
  for (uintptr_t p = a; p < a + n; p += 1)
  {
    auto it = syncs->find(p);
    if (it != syncs->end())
    {
      core_release(it->second, sizeof(SyncVar));
      syncs->erase(it);
    }
  }
}
extern "C" {
#define ATOMICS(B, T)                                                                                                  \
  T __tsan_atomic##B##_load(const volatile T* a, int mo)                                                               \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), false, RA, 101);                                                                \
    at_load((uintptr_t)a, mo);                                                                                         \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo)                                                            \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 102);                                                                 \
    at_store((uintptr_t)a, mo);                                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo)                                                            \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 103);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo)                                                           \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 104);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo)                                                           \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 104);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo)                                                           \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 104);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo)                                                            \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 104);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo)                                                           \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 104);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo)                                                          \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 104);                                                                 \
    at_rmw((uintptr_t)a, mo);                                                                                          \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)                            \
  {                                                                                                                    \
    at_before((uintptr_t)a, sizeof(T), true, RA, 105);                                                                 \
    T exp = *c;                                                                                                        \
    bool ok = __atomic_compare_exchange_n(a, &exp, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
    if (ok)                                                                                                            \
      at_rmw((uintptr_t)a, mo);                                                                                        \
    else                                                                                                               \
    {                                                                                                                  \
      at_load((uintptr_t)a, fmo);                                                                                      \
      *c = exp;                                                                                                        \
    }                                                                                                                  \
    return ok;                                                                                                         \
  }                                                                                                                    \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)                              \
  {                                                                                                                    \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                               \
  }                                                                                                                    \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                                  \
  {                                                                                                                    \
    T e = c;                                                                                                           \
    __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo);                                                     \
    return e;                                                                                                          \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
  if (!me || me->quiet)
    return;
  point(106);
  if (is_acq(mo))
    acquire(me->acq_pending);
  if (is_rel(mo))
  {
    me->rel_fence = me->vc;
    tick();
  }
}
void __tsan_atomic_signal_fence(int) {}

// Library helpers that touch the program's memory: tell the monitors what they read and write.
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  access((uintptr_t)s, n, false, false, RA);
  access((uintptr_t)d, n, true, false, RA);
  return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
  access((uintptr_t)s, n, false, false, RA);
  access((uintptr_t)d, n, true, false, RA);
  return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
  access((uintptr_t)d, n, true, false, RA);
  return memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
  access((uintptr_t)a, n, false, false, RA);
  access((uintptr_t)b, n, false, false, RA);
  return memcmp(a, b, n);
}
#define RB_INS _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(__real_, RB_INS)(bool, void*, void*, void*);
void CAT(__wrap_, RB_INS)(bool l, void* x, void* p, void* h)
{
  access((uintptr_t)x, 32, true, false, RA);
  access((uintptr_t)p, 32, true, false, RA);
  access((uintptr_t)h, 32, true, false, RA);
  CAT(__real_, RB_INS)(l, x, p, h);
}
#define RB_ERA _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
void* CAT(__real_, RB_ERA)(void*, void*);
void* CAT(__wrap_, RB_ERA)(void* z, void* h)
{
  access((uintptr_t)z, 32, true, false, RA);
  access((uintptr_t)h, 32, true, false, RA);
  return CAT(__real_, RB_ERA)(z, h);
}
#define RB_INC _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base
void* CAT(__real_, RB_INC)(void*);
void* CAT(__wrap_, RB_INC)(void* x)
{
  access((uintptr_t)x + 8, 24, false, false, RA);  // not the colour: it is rewritten by rebalancing only
  return CAT(__real_, RB_INC)(x);
}
#define RB_CINC _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base
void* CAT(__real_, RB_CINC)(const void*);
void* CAT(__wrap_, RB_CINC)(const void* x)
{
  access((uintptr_t)x + 8, 24, false, false, RA);
  return CAT(__real_, RB_CINC)(x);
}
#define LHOOK _ZNSt8__detail15_List_node_base7_M_hookEPS0_
void CAT(__real_, LHOOK)(void*, void*);
void CAT(__wrap_, LHOOK)(void* self, void* pos)
{
  access((uintptr_t)self, 16, true, false, RA);
  access((uintptr_t)pos, 16, true, false, RA);
  CAT(__real_, LHOOK)(self, pos);
}
#define LUNHOOK _ZNSt8__detail15_List_node_base9_M_unhookEv
void CAT(__real_, LUNHOOK)(void*);
void CAT(__wrap_, LUNHOOK)(void* self)
{
  access((uintptr_t)self, 16, false, false, RA);
  access(((uintptr_t*)self)[0], 16, true, false, RA);
  access(((uintptr_t*)self)[1], 16, true, false, RA);
  CAT(__real_, LUNHOOK)(self);
}
// exception objects shared between threads through exception_ptr: their reference count lives in libstdc++
#define EPREL _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv
void CAT(__real_, EPREL)(void**);
void CAT(__wrap_, EPREL)(void** self)
{
  if (me && !me->quiet && *self)
  {
    SyncVar* s = sync_at((uintptr_t)*self ^ 1);
    release_join(s->vc);
    acquire(s->vc);
  }
  CAT(__real_, EPREL)(self);
}
// the exception of a future is released inside libstdc++
#define FRESD2 _ZNSt13__future_base12_Result_baseD2Ev
void CAT(__real_, FRESD2)(void**);
void CAT(__wrap_, FRESD2)(void** self)
{
  if (me && !me->quiet && self[1])
  {
    SyncVar* s = sync_at((uintptr_t)self[1] ^ 1);
    release_join(s->vc);
    acquire(s->vc);
  }
  CAT(__real_, FRESD2)(self);
}
// leaving a handler gives up a reference as well
void __real___cxa_end_catch();
void __wrap___cxa_end_catch()
{
  if (me && !me->quiet && !me->in_core)
    if (std::exception_ptr e = std::current_exception())
    {
      SyncVar* s = sync_at((uintptr_t) * (void**)&e ^ 1);
      release_join(s->vc);
    }
  __real___cxa_end_catch();
}
}
