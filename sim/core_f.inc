// Part F: scenario API, runs, command line.
static sim::Scenario* scen_list = nullptr;
struct sim::TaskImpl
{
  std::function<void()> f;
  Thread* t;
};
static void* task_main(void* a)
{
  sim::TaskImpl* ti = (sim::TaskImpl*)a;
  ti->f();
  {
    sim::Quiet q;
    ti->f = nullptr;
  }
  return nullptr;
}
namespace sim
{
Scenario::Scenario(const char* n, void (*f)()) : name(n), fn(f), next(scen_list) { scen_list = this; }

int new_proc(const char* name)
{
  Proc* p = mk_proc(name);
  p->tid_off = rP.below(3) * 2;
  return p->pid;
}
int main_pid() { return (*procs)[0]->pid; }
void run_as(int pid, const std::function<void()>& f)
{
  Proc* old = me->proc;
  me->proc = proc_of(pid);
  try
  {
    f();
  }
  catch (...)
  {
    me->proc = old;
    throw;
  }
  me->proc = old;
}
Task spawn(int pid, const char* name, std::function<void()> f)
{
  me->in_core++;
  TaskImpl* ti = new TaskImpl;
  ti->f = std::move(f);
  Thread* t = mk_thread(proc_of(pid), name, task_main, ti);
  ti->t = t;
  me->in_core--;
  Task r;
  r.impl = ti;
  trace("spawn %s", name);
  point(70);
  return r;
}
void Task::join()
{
  Thread* t = impl->t;
  point(71);
  if (t->st != T_DONE)
    block_until([t] { return t->st == T_DONE || !t->home->alive; }, INT64_MAX, W_JOIN, (uintptr_t)t);
  acquire(t->vc);
  if (!t->joined && t->st == T_DONE)
    t->home->free_tids.push_back(t->fake);
  t->joined = true;
}
bool Task::done() const { return impl->t->st == T_DONE || !impl->t->home->alive; }
bool alive(int pid)
{
  Proc* p = proc_of(pid);
  return p && p->alive;
}
void kill_proc(int pid)
{
  Proc* p = proc_of(pid);
  if (p && p->alive)
  {
    R->faults[F_KILL]++;
    proc_kill(p, "killed");
  }
}
void kill_proc_after(int pid, uint64_t points)
{
  Proc* p = proc_of(pid);
  p->kill_at = p->points + points;
}
void on_kill(int pid, std::function<void()> f)
{
  Quiet q;
  proc_of(pid)->on_kill.push_back(new std::function<void()>(std::move(f)));
}
void stall_proc(int pid, int64_t ns)
{
  R->faults[F_STALL]++;
  proc_of(pid)->stalled_until = g_now + ns;
}
void set_fd_range(int pid, int base, int limit)
{
  proc_of(pid)->fd_base = base;
  proc_of(pid)->fd_limit = limit;
}
void stdin_closed(int pid) { proc_of(pid)->stdin_closed = true; }
int open_fds(int pid)
{
  int n = 0;
  for (auto f : proc_of(pid)->fds)
    if (f && f->kind != K_FOREIGN)
      n++;
  return n;
}
std::string fd_summary(int pid)
{
  static const char* kn[] = { "socket", "listener", "stream", "pipe-read", "pipe-write", "file", "foreign" };
  std::string s;
  Proc* p = proc_of(pid);
  for (size_t i = 0; i < p->fds.size(); i++)
    if (p->fds[i])
      s += (s.empty() ? "" : ",") + std::to_string(i) + ":" + kn[p->fds[i]->kind];
  return s;
}
int live_threads(int pid)
{
  int n = 0;
  for (int i = 1; i <= nthreads; i++)
    if (threads[i]->home->pid == pid && threads[i]->st != T_DONE)
      n++;
  return n;
}
uint64_t points_of(int pid) { return proc_of(pid)->points; }
int64_t now() { return g_now; }
void sleep_ns(int64_t ns)
{
  point(72);
  block_raw(nullptr, nullptr, g_now + ns, W_OTHER, 0);
}
bool wait_until(const std::function<bool()>& pred, int64_t timeout)
{
  point(73);
  struct Arg
  {
    const std::function<bool()>* f;
  } a{ &pred };
  {
    Quiet q;
    if (pred())
      return true;
  }
  return block_raw([](void* x) { return (*((Arg*)x)->f)(); }, &a, timeout < 0 ? INT64_MAX : g_now + timeout, W_OTHER, 0);
}
void yield() { point(74); }
Quiet::Quiet()
{
  if (me)
    me->quiet++;
}
Quiet::~Quiet()
{
  if (me)
    me->quiet--;
}
void violate(const char* prop, const char* fmt, ...)
{
  char b[5000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  trace("violation %s: %s", prop, b);
  if (!accepted(prop))
    return;
  finish(2, prop, "oracle", b);
}
bool accepts(const char* prop) { return accepted(prop); }
const char* deciding() { return g_prop; }
void note(const char* fmt, ...)
{
  if (!g_trace)
    return;
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  trace("%s", b);
}
void probe(const char* name)
{
  for (int i = 0; i < R->nprobes; i++)
    if (strcmp(R->probes[i].name, name) == 0)
    {
      R->probes[i].n++;
      return;
    }
  if (R->nprobes < 64)
  {
    snprintf(R->probes[R->nprobes].name, sizeof R->probes[0].name, "%s", name);
    R->probes[R->nprobes++].n = 1;
  }
}
Deadline::Deadline(const char* prop, const char* what, int64_t ns) : slot(-1)
{
  for (int i = 0; i < 32; i++)
    if (!dls[i].used)
    {
      slot = i;
      dls[i] = { true, g_now + ns, prop, what, me->idx };
      break;
    }
  if (slot < 0)
    finish(3, "", "limit", "too many deadlines");
  dl_update();
}
Deadline::~Deadline()
{
  if (slot >= 0)
    dls[slot].used = false;
  dl_update();
}
void hash_value(uint64_t v) { hmix(v); }
void ev(const char* what)
{
  R->ops++;
  trace("op %s", what);
}
void set_exec_handler(ExecHandler h)
{
  Quiet q;
  exec_handler = new ExecHandler(std::move(h));
}
int sim_write(int fd, const void* p, size_t n)
{
  me->nofault++;
  size_t off = 0;
  while (off < n)
  {
    ssize_t r = ::write(fd, (const char*)p + off, n - off);
    if (r <= 0)
      break;
    off += size_t(r);
  }
  me->nofault--;
  return int(off);
}
void add_proc_net_noise(const std::string& line) { netnoise->push_back(Str(line.data(), line.size())); }
bool killed_by_signal(int pid)
{
  Proc* p = proc_of(pid);
  return p && p->got_signal;
}
std::string file_contents(const std::string& path)
{
  auto it = disk->find(Str(path.c_str()));
  if (it == disk->end())
    return std::string();
  return std::string(it->second->data.data(), it->second->data.size());
}
bool file_exists(const std::string& path) { return disk->find(Str(path.c_str())) != disk->end(); }
static socklen_t abs_addr(struct sockaddr_un* u, const std::string& n)
{
  memset(u, 0, sizeof *u);
  u->sun_family = AF_UNIX;
  memcpy(u->sun_path + 1, n.data(), n.size());
  return socklen_t(sizeof(sa_family_t) + 1 + n.size());
}
int raw_connect(const std::string& n)
{
  me->nofault++;
  struct sockaddr_un u;
  socklen_t l = abs_addr(&u, n);
  int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
  if (::connect(fd, (struct sockaddr*)&u, l) != 0)
  {
    ::close(fd);
    fd = -1;
  }
  me->nofault--;
  return fd;
}
int raw_listen(const std::string& n)
{
  me->nofault++;
  struct sockaddr_un u;
  socklen_t l = abs_addr(&u, n);
  int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
  if (::bind(fd, (struct sockaddr*)&u, l) != 0 || ::listen(fd, 5) != 0)
  {
    ::close(fd);
    fd = -1;
  }
  me->nofault--;
  return fd;
}
int raw_accept(int fd, int64_t timeout)
{
  me->nofault++;
  struct pollfd pf = { fd, POLLIN, 0 };
  int r = -1;
  if (poll_impl(&pf, 1, timeout) == 1)
    r = ::accept(fd, nullptr, nullptr);
  me->nofault--;
  return r;
}
void raw_urgent(int fd)
{
  File* f = fd_get(fd);
  if (!f || !f->out || f->out->rclosed || f->out->wclosed)
    return;
  f->out->oob = true;
  f->out->oob_after = f->out->used();
}
bool raw_send(int fd, const void* p, size_t n)
{
  me->nofault++;
  size_t off = 0;
  while (off < n)
  {
    ssize_t r = ::send(fd, (const char*)p + off, n - off, MSG_NOSIGNAL);
    if (r <= 0)
      break;
    off += size_t(r);
  }
  me->nofault--;
  return off == n;
}
int64_t raw_recv(int fd, void* p, size_t n, int64_t timeout)
{
  me->nofault++;
  struct pollfd pf = { fd, POLLIN, 0 };
  int64_t r = -1;
  if (poll_impl(&pf, 1, timeout) == 1)
  {
    r = ::recv(fd, p, n, 0);
    if (r < 0)
      r = 0;
  }
  me->nofault--;
  return r;
}
void raw_close(int fd)
{
  me->nofault++;
  ::close(fd);
  me->nofault--;
}
bool listener_exists(const std::string& n)
{
  struct sockaddr_un u;
  socklen_t l = abs_addr(&u, n);
  return find_listener(sock_name((struct sockaddr*)&u, l)) != nullptr;
}
void set_sockbuf(size_t b) { sockbuf = b; }
void set_backlog_cap(int n) { backlog_limit = n; }
void coarse_clock(int64_t q) { g_coarse = q; }
void long_run()
{
  g_step_cap = 60000000;
  struct rlimit rl = { 120, 200 };
  raw_syscall6(SYS_setrlimit, RLIMIT_CPU, (long)&rl, 0, 0, 0, 0);
}
}  // namespace sim

// ---- one run ------------------------------------------------------------------------------------------------------------------
static sim::Scenario* g_scen;
static void* scen_main(void*)
{
  g_scen->fn();
  finish(1, "", "ok", "");
}
static void on_signal(int sig, siginfo_t* si, void*)
{
  if (sig == SIGALRM)
    finish(3, "", "wall-clock", "the run exceeded its wall-clock limit");
  if (!me)
    finish(3, "", "crash", "crash outside a simulated thread");
  me->in_core++;
  if (sig == SIGXCPU)
    generic_violation("hang", "a thread computes without end; %s", thread_states().c_str());
  generic_violation("crash", "signal %d (%s) in %s/%s at %s, address %s", sig, strsignal(sig), me->proc->name.c_str(), me->name.c_str(),
                    backtrace_str(me, 0).c_str(), sig == SIGSEGV ? (si->si_addr < (void*)4096 ? "near null" : "wild") : "-");
}
static void on_terminate()
{
  char w[400] = "no active exception";
  if (std::exception_ptr e = std::current_exception())
  {
    try
    {
      std::rethrow_exception(e);
    }
    catch (const std::exception& x)
    {
      snprintf(w, sizeof w, "uncaught exception %s: %s", typeid(x).name(), x.what());
    }
    catch (...)
    {
      snprintf(w, sizeof w, "uncaught exception");
    }
  }
  if (!me)
    finish(3, "", "terminate", w);
  me->in_core++;
  generic_violation("terminate", "std::terminate in %s/%s: %s; at %s", me->proc->name.c_str(), me->name.c_str(), w,
                    backtrace_str(me, 0).c_str());
}

static uint64_t mix(uint64_t a, uint64_t b)
{
  Rng r{ a * 0x9e3779b97f4a7c15ULL + b * 0xD6E8FEB86659FD93ULL };
  r.next();
  return r.next();
}
static void run_init()
{
  uint64_t sc = 0;
  for (const char* p = g_scen->name; *p; p++)
    sc = sc * 131 + uint64_t(*p);
  uint64_t base = mix(g_seed, sc);
  rW.s = mix(base, 1);
  rS.s = mix(base, 2);
  rF.s = mix(base, 3);
  rP.s = mix(base, 4);
  static const uint32_t ps[] = { 15, 50, 120, 250, 450, 700 };
  uint64_t r = rP.below(10);
  policy = r < 5 ? POL_RANDOM : r < 8 ? POL_PCT : POL_WEIGHT;
  p_switch = ps[rP.below(6)];
  static const uint64_t lens[] = { 400, 2000, 8000, 30000 };
  uint64_t len = lens[rP.below(4)];
  for (auto& c : pct_change)
    c = rP.below(len);
  static const int64_t costs[] = { 100, 300, 1000, 4000, 20000 };
  point_cost = costs[rP.below(5)];
  heap_reuse = rP.below(3) == 0;
  if (heap_reuse)
    R->faults[sim::F_HEAPREUSE]++;
}
static void child_run()
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 150;
  raw_syscall6(SYS_setitimer, ITIMER_REAL, (long)&it, 0, 0, 0, 0);
  struct rlimit rl = { 25, 200 };
  raw_syscall6(SYS_setrlimit, RLIMIT_CPU, (long)&rl, 0, 0, 0, 0);
  run_init();
  Proc* p = mk_proc("main");
  Thread* t = mk_thread(p, "main", scen_main, nullptr);
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex_wake(&t->go);
  park_forever();
}

// ---- parent ---------------------------------------------------------------------------------------------------------------------
static char obuf[16384];
static size_t olen = 0;
static int ofd = 1;
static void oflush()
{
  size_t off = 0;
  while (off < olen)
  {
    long w = raw_syscall6(SYS_write, ofd, (long)(obuf + off), (long)(olen - off), 0, 0, 0);
    if (w <= 0)
      break;
    off += size_t(w);
  }
  olen = 0;
}
static void oput(const char* fmt, ...)
{
  if (olen > sizeof obuf - 8000)
    oflush();
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(obuf + olen, sizeof obuf - olen, fmt, ap);
  va_end(ap);
  olen += size_t(n) < sizeof obuf - olen ? size_t(n) : sizeof obuf - olen - 1;
}
static char esc[14000];
static const char* jesc(const char* s)
{
  size_t o = 0;
  for (; *s && o < sizeof esc - 8; s++)
  {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\')
    {
      esc[o++] = '\\';
      esc[o++] = char(c);
    }
    else if (c < 32 || c > 126)
      o += size_t(snprintf(esc + o, 8, "\\u%04x", c));
    else
      esc[o++] = char(c);
  }
  esc[o] = 0;
  return esc;
}
static uint64_t now_real_ns()
{
  struct timespec ts;
  raw_syscall6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return uint64_t(ts.tv_sec) * 1000000000ULL + uint64_t(ts.tv_nsec);
}
static struct
{
  uint64_t runs, faults[sim::F_COUNT], points, switches, preempts, ops, syscalls, inconclusive, violations, threads, faultruns[sim::F_COUNT];
  double simtime;
  Probe probes[128];
  int nprobes;
} A;

static void load_replay(const char* path)
{
  FILE* f = ::fopen(path, "r");
  if (!f)
    mem_die("sim: cannot read replay file\n");
  Str s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    s.append(b, n);
  fclose(f);
  replay = true;
  size_t i = 0;
  int mode = 0;  // 1 W, 2 S, 3 F
  int fk = -1;
  Vec<uint64_t> pair;
  while (i < s.size())
  {
    char c = s[i];
    if (c == '"')
    {
      size_t e = s.find('"', i + 1);
      Str k = s.substr(i + 1, e - i - 1);
      i = e + 1;
      if (k == "W")
        mode = 1;
      else if (k == "S")
        mode = 2;
      else if (k == "F")
        mode = 3;
      else
        for (int q = 0; q < sim::F_COUNT; q++)
          if (k == sim::fault_names[q])
            fk = q;
      continue;
    }
    if (c >= '0' && c <= '9')
    {
      uint64_t v = 0;
      while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        v = v * 10 + uint64_t(s[i++] - '0');
      if (mode == 1)
        inW->push_back(v);
      else
      {
        pair.push_back(v);
        if (pair.size() == 2)
        {
          if (mode == 2)
            inS->push_back({ pair[0], pair[1] });
          else if (fk >= 0)
            inF[fk]->push_back({ pair[0], pair[1] });
          pair.clear();
        }
      }
      continue;
    }
    i++;
  }
}
template <class T>
static T* core_new()
{
  return new (core_alloc(sizeof(T))) T;
}

int main(int argc, char** argv)
{
  const char* scen = "";
  uint64_t seed = 1, count = 1;
  double max_s = 1e9;
  const char* rep = nullptr;
  const char* coverf = nullptr;
  int cpu = -1;
  bool list = false, all = false;
  uint64_t max_viol = 1;
  for (int i = 1; i < argc; i++)
  {
    auto is = [&](const char* o) { return strcmp(argv[i], o) == 0 && i + 1 < argc; };
    if (is("--scenario"))
      scen = argv[++i];
    else if (is("--seed"))
      seed = strtoull(argv[++i], nullptr, 10);
    else if (is("--count"))
      count = strtoull(argv[++i], nullptr, 10);
    else if (is("--prop"))
      g_prop = argv[++i];
    else if (is("--seconds"))
      max_s = atof(argv[++i]);
    else if (is("--dump"))
      g_dump = argv[++i];
    else if (is("--replay"))
      rep = argv[++i];
    else if (is("--cover"))
      coverf = argv[++i];
    else if (is("--cpu"))
      cpu = atoi(argv[++i]);
    else if (is("--max-violations"))
      max_viol = strtoull(argv[++i], nullptr, 10);
    else if (strcmp(argv[i], "--trace") == 0)
      g_trace = true;
    else if (strcmp(argv[i], "--list") == 0)
      list = true;
    else if (strcmp(argv[i], "--all") == 0)
      all = true;  // print a line for every run
  }
  if (list)
  {
    for (auto s = scen_list; s; s = s->next)
      printf("%s\n", s->name);
    fflush(stdout);
    return 0;
  }
  if (!getenv("SIM_NOASLR"))
  {
    // a fixed address space layout: nothing may depend on where libraries happen to be
    int cur = personality(0xffffffff);
    setenv("SIM_NOASLR", "1", 1);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality((unsigned long)cur | ADDR_NO_RANDOMIZE) != -1)
      raw_syscall6(SYS_execve, (long)"/proc/self/exe", (long)argv, (long)environ, 0, 0, 0);
  }
  for (auto s = scen_list; s; s = s->next)
    if (strcmp(s->name, scen) == 0)
      g_scen = s;
  if (!g_scen)
    mem_die("sim: no such scenario\n");
  if (cpu >= 0)
  {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(cpu, &cs);
    raw_syscall6(SYS_sched_setaffinity, 0, sizeof cs, (long)&cs, 0, 0, 0);
  }
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cover_map = (uint8_t*)mmap(nullptr, COVER_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  logW = core_new<Vec<uint64_t>>();
  logS = core_new<Vec<IV>>();
  inW = core_new<Vec<uint64_t>>();
  inS = core_new<Vec<IV>>();
  for (int k = 0; k < sim::F_COUNT; k++)
  {
    logF[k] = core_new<Vec<IV>>();
    inF[k] = core_new<Vec<IV>>();
  }
  procs = core_new<Vec<Proc*>>();
  cand = core_new<Vec<Thread*>>();
  syncs = core_new<UMap<uintptr_t, SyncVar*>>();
  allfiles = core_new<Vec<File*>>();
  disk = core_new<OMap<Str, Node*>>();
  netnoise = core_new<Vec<Str>>();
  streams = core_new<Vec<StreamRec>>();
  if (rep)
  {
    // keep the heap of the program independent of the replay file
    uintptr_t top = heap_top;
    load_replay(rep);
    (void)top;
  }
  heap_top = (heap_top + 0xFFFFFF) & ~uintptr_t(0xFFFFFF);
  std::set_terminate(on_terminate);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGALRM, SIGTRAP })
    sigaction(s, &sa, nullptr);
  ofd = (int)raw_syscall6(SYS_fcntl, 1, F_DUPFD, 20, 0, 0, 0);
  {
    long nul = raw_syscall6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0, 0, 0);
    raw_syscall6(SYS_dup2, nul, 1, 0, 0, 0, 0);
    if (!g_trace)
      raw_syscall6(SYS_dup2, nul, 2, 0, 0, 0, 0);
  }
  uint64_t t0 = now_real_ns();
  for (uint64_t k = 0; k < count; k++)
  {
    if (double(now_real_ns() - t0) > max_s * 1e9)
      break;
    g_seed = seed + k;
    memset(R, 0, sizeof *R);
    long pid = raw_syscall6(SYS_fork, 0, 0, 0, 0, 0, 0);
    if (pid == 0)
    {
      // die with the parent
      raw_syscall6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
      child_run();
    }
    int st = 0;
    raw_syscall6(SYS_wait4, pid, (long)&st, 0, 0, 0, 0);
    if (R->status == 0)
    {
      R->status = 3;
      snprintf(R->cls, sizeof R->cls, "died");
      snprintf(R->msg, sizeof R->msg, "simulation process ended with wait status %d", st);
    }
    A.runs++;
    for (int i = 0; i < sim::F_COUNT; i++)
    {
      A.faults[i] += R->faults[i];
      A.faultruns[i] += R->faults[i] != 0;
    }
    A.points += R->points;
    A.switches += R->switches;
    A.preempts += R->preempts;
    A.ops += R->ops;
    A.syscalls += R->syscalls;
    A.threads += R->nthreads;
    A.simtime += double(R->simtime) * 1e-9;
    for (int i = 0; i < R->nprobes; i++)
    {
      int j = 0;
      while (j < A.nprobes && strcmp(A.probes[j].name, R->probes[i].name))
        j++;
      if (j == 128)
        continue;
      if (j == A.nprobes)
      {
        A.probes[j] = R->probes[i];
        A.probes[j].n = 0;
        A.nprobes++;
      }
      A.probes[j].n++;
    }
    if (R->status == 2)
      A.violations++;
    if (R->status == 3)
      A.inconclusive++;
    if (R->status != 1 || all)
    {
      oput("{\"t\":\"run\",\"seed\":%llu,\"status\":%d,\"prop\":\"%s\",\"cls\":\"%s\",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"points\":%llu,"
           "\"simtime\":%.9f,\"msg\":\"%s\"}\n",
           (unsigned long long)g_seed, R->status, R->prop, R->cls, (unsigned long long)R->hash, (unsigned long long)R->sched_hash,
           (unsigned long long)R->points, double(R->simtime) * 1e-9, jesc(R->msg));
      oflush();
    }
    else
      oput("S %016llx\n", (unsigned long long)R->sched_hash);
    if (A.violations >= max_viol)
      break;
    if (A.inconclusive > 50 && A.inconclusive * 2 > A.runs)
      break;
  }
  double wall = double(now_real_ns() - t0) * 1e-9;
  oput("{\"t\":\"sum\",\"runs\":%llu,\"wall\":%.3f,\"points\":%llu,\"switches\":%llu,\"preempts\":%llu,\"ops\":%llu,\"syscalls\":%llu,\"threads\":%llu,"
       "\"simtime\":%.6f,\"violations\":%llu,\"inconclusive\":%llu,\"faults\":{",
       (unsigned long long)A.runs, wall, (unsigned long long)A.points, (unsigned long long)A.switches, (unsigned long long)A.preempts,
       (unsigned long long)A.ops, (unsigned long long)A.syscalls, (unsigned long long)A.threads, A.simtime, (unsigned long long)A.violations,
       (unsigned long long)A.inconclusive);
  bool first = true;
  for (int i = 0; i < sim::F_COUNT; i++)
    if (A.faults[i])
    {
      oput("%s\"%s\":[%llu,%llu]", first ? "" : ",", sim::fault_names[i], (unsigned long long)A.faults[i], (unsigned long long)A.faultruns[i]);
      first = false;
    }
  oput("},\"probes\":{");
  for (int i = 0; i < A.nprobes; i++)
    oput("%s\"%s\":%llu", i ? "," : "", A.probes[i].name, (unsigned long long)A.probes[i].n);
  oput("}}\n");
  oflush();
  if (coverf)
  {
    long fd = raw_syscall6(SYS_openat, AT_FDCWD, (long)coverf, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
    raw_syscall6(SYS_write, fd, (long)cover_map, COVER_BITS / 8, 0, 0, 0);
    raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
  }
  raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
