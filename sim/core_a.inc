// Part A: memory. Deterministic heap arena, address-state map (bounds / use after free) and race shadow.
static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

static const uintptr_t HEAP_BASE = 0x100000000000ULL;
static const uintptr_t HEAP_SIZE = 2ULL << 30;
static const uintptr_t STACK_BASE = HEAP_BASE + HEAP_SIZE;
static const uintptr_t STACK_ONE = 512 << 10;
static const int MAX_THREADS = 120;
static const uintptr_t STACK_SIZE = STACK_ONE * (MAX_THREADS + 2);
static const uintptr_t ARENA_END = STACK_BASE + STACK_SIZE;
static const uintptr_t EXE_END = 256ULL << 20;
static const uintptr_t SHADOW_ARENA = 0x200000000000ULL;  // 4 bytes of shadow per byte
static const uintptr_t SHADOW_EXE = 0x300000000000ULL;
static const uintptr_t HSTATE = 0x310000000000ULL;  // one byte per 16 bytes of heap
static const uintptr_t CORE_BASE = 0x320000000000ULL;
static const uintptr_t CORE_SIZE = 1ULL << 30;

static bool mem_ready = false;
static uintptr_t heap_top = HEAP_BASE + 4096;
static uintptr_t core_top = CORE_BASE;
static const int NCLASS = 256;  // heap reuse lists by 16-byte size class
static uintptr_t heap_free[NCLASS];
static bool heap_reuse = false;
static uint64_t heap_allocs = 0;

static void mem_die(const char* m)
{
  raw_syscall6(SYS_write, 2, (long)m, strlen(m), 0, 0, 0);
  raw_syscall6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}
static void map_fixed(uintptr_t at, uintptr_t size)
{
  long r = raw_syscall6(SYS_mmap, at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (long)at)
    mem_die("sim: cannot map fixed region\n");
}
static void mem_init()
{
  mem_ready = true;
  map_fixed(HEAP_BASE, HEAP_SIZE + STACK_SIZE);
  map_fixed(SHADOW_ARENA, (HEAP_SIZE + STACK_SIZE) * 4);
  map_fixed(SHADOW_EXE, EXE_END * 4);
  map_fixed(HSTATE, HEAP_SIZE / 16);
  map_fixed(CORE_BASE, CORE_SIZE);
}

// --- allocator for the simulator's own containers -----------------------------------------------------------------
static void* core_free_lists[64];
static void* core_alloc(size_t n)
{
  if (!mem_ready)
    mem_init();
  int c = 4;
  while ((size_t(1) << c) < n)
    c++;
  if (core_free_lists[c])
  {
    void* p = core_free_lists[c];
    core_free_lists[c] = *(void**)p;
    return p;
  }
  uintptr_t p = core_top;
  core_top += size_t(1) << c;
  if (core_top > CORE_BASE + CORE_SIZE)
    mem_die("sim: core memory exhausted\n");
  return (void*)p;
}
static void core_release(void* p, size_t n)
{
  int c = 4;
  while ((size_t(1) << c) < n)
    c++;
  *(void**)p = core_free_lists[c];
  core_free_lists[c] = p;
}
template <class T>
struct CA
{
  using value_type = T;
  CA() = default;
  template <class U>
  CA(const CA<U>&)
  {
  }
  T* allocate(size_t n) { return (T*)core_alloc(n * sizeof(T)); }
  void deallocate(T* p, size_t n) { core_release(p, n * sizeof(T)); }
  template <class U>
  bool operator==(const CA<U>&) const
  {
    return true;
  }
  template <class U>
  bool operator!=(const CA<U>&) const
  {
    return false;
  }
};
template <class T>
using Vec = std::vector<T, CA<T>>;
template <class K, class V>
using UMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, CA<std::pair<const K, V>>>;
template <class K, class V>
using OMap = std::map<K, V, std::less<K>, CA<std::pair<const K, V>>>;
using Str = std::basic_string<char, std::char_traits<char>, CA<char>>;

// --- heap -----------------------------------------------------------------------------------------------------------
enum : uint8_t
{
  H_NONE = 0,
  H_FULL = 1,  // 2..16: first (v-1) bytes valid ; 17 unused
  H_REDZONE = 0xFA,
  H_FREED = 0xFD
};
struct HeapHdr
{
  uint32_t size;   // requested size
  uint32_t total;  // bytes from header to end of redzone
  uint32_t magic;
  uint32_t back;   // distance from block start to this header (alignment)
};
static const uint32_t HMAGIC = 0x5ca10905;
static inline bool in_heap(uintptr_t a) { return a - HEAP_BASE < HEAP_SIZE; }
static inline uint8_t* hst(uintptr_t a) { return (uint8_t*)(HSTATE + ((a - HEAP_BASE) >> 4)); }
static void report_mem(const char* cls, uintptr_t addr, size_t size, void* pc);
static void forget_sync(uintptr_t a, size_t n);
static void shadow_clear(uintptr_t a, size_t n);

static void set_state(uintptr_t user, size_t size, size_t padded)
{
  uint8_t* s = hst(user);
  size_t full = size / 16, rem = size % 16;
  memset(s, H_FULL, full);
  size_t i = full;
  if (rem)
    s[i++] = uint8_t(rem + 1);
  for (; i < padded / 16; i++)
    s[i] = H_REDZONE;
}

static void* heap_alloc(size_t n, size_t align, bool zero)
{
  if (!mem_ready)
    mem_init();
  if (n > (256u << 20))
  {
    errno = ENOMEM;
    return nullptr;
  }
  heap_allocs++;
  size_t padded = (n + 15) & ~size_t(15);
  size_t total = 16 + padded + 16;
  if (align <= 16)
  {
    size_t c = total / 16;
    if (heap_reuse && c < NCLASS && heap_free[c])
    {
      uintptr_t b = heap_free[c];
      heap_free[c] = *(uintptr_t*)(b + 16);
      forget_sync(b, total);
      shadow_clear(b, total);
      HeapHdr* h = (HeapHdr*)b;
      h->size = uint32_t(n);
      h->total = uint32_t(total);
      h->magic = HMAGIC;
      h->back = 0;
      set_state(b + 16, n, padded + 16);
      memset((void*)(b + 16), zero ? 0 : 0xA5, padded);
      return (void*)(b + 16);
    }
    uintptr_t b = heap_top;
    if (b + total > HEAP_BASE + HEAP_SIZE)
    {
      errno = ENOMEM;
      return nullptr;
    }
    heap_top += total;
    HeapHdr* h = (HeapHdr*)b;
    h->size = uint32_t(n);
    h->total = uint32_t(total);
    h->magic = HMAGIC;
    h->back = 0;
    *hst(b) = H_REDZONE;
    set_state(b + 16, n, padded + 16);
    if (!zero)
      memset((void*)(b + 16), 0xA5, padded);
    return (void*)(b + 16);
  }
  uintptr_t u = (heap_top + 16 + align - 1) & ~(align - 1);
  if (u + padded + 16 > HEAP_BASE + HEAP_SIZE)
  {
    errno = ENOMEM;
    return nullptr;
  }
  for (uintptr_t a = heap_top; a < u; a += 16)
    *hst(a) = H_REDZONE;
  HeapHdr* h = (HeapHdr*)(u - 16);
  h->size = uint32_t(n);
  h->total = uint32_t(16 + padded + 16);
  h->magic = HMAGIC;
  h->back = 1;
  heap_top = u + padded + 16;
  set_state(u, n, padded + 16);
  if (!zero)
    memset((void*)u, 0xA5, padded);
  return (void*)u;
}

static void heap_free_fn(void* p, void* pc)
{
  if (!p)
    return;
  uintptr_t u = (uintptr_t)p;
  if (!in_heap(u))
    return;  // from before our allocator took over
  HeapHdr* h = (HeapHdr*)(u - 16);
  if (u % 16 || h->magic != HMAGIC)
  {
    report_mem("invalid-free", u, 0, pc);
    return;
  }
  if (*hst(u) == H_FREED || (h->total & 0x80000000u))
  {
    report_mem("double-free", u, h->size, pc);
    return;
  }
  size_t padded = (h->size + 15u) & ~15u;
  if (padded == 0)
    padded = 16;  // mark redzone granule as freed
  memset(hst(u), H_FREED, padded / 16);
  size_t total = h->total;
  memset((void*)u, 0xDD, (h->size + 15u) & ~15u);
  if (heap_reuse && !h->back && total / 16 < NCLASS && h->size >= 8)
  {
    // FIFO would be a quarantine; LIFO is the most adversarial for stale users.
    *(uintptr_t*)u = heap_free[total / 16];
    heap_free[total / 16] = u - 16;
  }
  else
    h->total |= 0x80000000u;
}

extern "C" {
void* malloc(size_t n) { return heap_alloc(n, 16, false); }
void* calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n))
  {
    errno = ENOMEM;
    return nullptr;
  }
  return heap_alloc(n, 16, true);
}
void free(void* p) { heap_free_fn(p, __builtin_return_address(0)); }
void* realloc(void* p, size_t n)
{
  if (!p)
    return heap_alloc(n, 16, false);
  void* q = heap_alloc(n, 16, false);
  if (q)
  {
    size_t old = in_heap((uintptr_t)p) ? ((HeapHdr*)((uintptr_t)p - 16))->size : n;
    memcpy(q, p, old < n ? old : n);
    heap_free_fn(p, __builtin_return_address(0));
  }
  return q;
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, false); }
int posix_memalign(void** out, size_t al, size_t n)
{
  *out = heap_alloc(n, al, false);
  return *out ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p) { return p ? ((HeapHdr*)((uintptr_t)p - 16))->size : 0; }
}

// --- race shadow ------------------------------------------------------------------------------------------------------
// cell: tid 7 | mask 8 | write 1 | atomic 1 | clock 20 | pc 27
static inline uint64_t mkcell(uint32_t tid, uint8_t mask, bool w, bool at, uint32_t clk, uintptr_t pc)
{
  return uint64_t(tid & 127) | (uint64_t(mask) << 7) | (uint64_t(w) << 15) | (uint64_t(at) << 16) |
         (uint64_t(clk & 0xFFFFF) << 17) | (uint64_t(pc & 0x7FFFFFF) << 37);
}
static inline uint64_t* shadow_of(uintptr_t word)
{
  if (word - HEAP_BASE < HEAP_SIZE + STACK_SIZE)
    return (uint64_t*)(SHADOW_ARENA + (word - HEAP_BASE) * 4);
  if (word < EXE_END)
    return (uint64_t*)(SHADOW_EXE + word * 4);
  return nullptr;
}
static void shadow_clear(uintptr_t a, size_t n)
{
  uint64_t* s = shadow_of(a & ~uintptr_t(7));
  if (s)
    memset(s, 0, ((n + 7) & ~size_t(7)) * 4);
}
