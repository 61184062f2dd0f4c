// The process-wide registries that every thread of a traced program uses: trace states, thread names, tracepoint names, event buffers.
namespace singletons
{
struct Th
{
  unsigned long tid{ 0 };
  bool state_known{ false }, state{ true }, named{ false }, buffered{ false };
  const void* buf{ nullptr };
  bool exited{ false };
};
struct SWorld
{
  std::vector<Th*> th;
  int sum{ 0 };  // of all changes of the process state, as reported by the exchanges
  std::map<const void*, int> orphaned;
  int strings{ 0 };
};
SWorld* S;
std::string name_of(const Th* t, int k) { return "thread " + std::to_string(t->tid) + " named " + std::to_string(k); }

void own_ops(Th* t)
{
  auto cfg = TraceConfigurator::getInstance();
  auto col = TracePointCollectorNative::getInstance();
  auto& names = ThreadNameTracker::getInstance();
  auto& strings = StaticStringTracker::getInstance();
  std::string name;
  tracepoint_collector_types::ScopeBufferPtr buf;
  for (uint64_t k = sim::range(1, 6); k > 0; k--)
  {
    sim::ev("op");
    switch (sim::choose(9))
    {
      case 0:
      {
        const bool v = sim::flip(1, 2), was = cfg->setThreadState(v);
        if (was != t->state)
          vio({ "C23", "C14" }, "setting a thread's state returned %d although nobody changed it from %d", was, t->state);
        t->state = v;
        t->state_known = true;
        break;
      }
      case 1:
        if (cfg->getThreadState() != t->state)
          vio({ "C23", "C14" }, "a thread's state is not what it was set to");
        t->state_known = true;
        break;
      case 2:
      {
        const bool v = sim::flip(1, 2), was = cfg->setProcessState(v);
        sim::Quiet q;
        S->sum += int(v) - int(was);
        break;
      }
      case 3:
      {
        auto m = cfg->getThreadMap();
        auto it = m.find(t->tid);
        if (t->state_known && (it == m.end() || it->second->load() != t->state))
          vio({ "C23", "C14" }, "the snapshot of all threads' states lacks a living thread or has its old state");
        break;
      }
      case 4:
        name = name_of(t, int(k));
        names.setCurrentName(name);
        t->named = true;
        break;
      case 5:
      {
        auto m = names.getMap();
        auto it = m.find(t->tid);
        if (t->named && (it == m.end() || it->second != name))
          vio({ "C23", "C11" }, "the snapshot of thread names lacks a living thread or has its old name");
        break;
      }
      case 6:
      {
        int id;
        {
          sim::Quiet q;
          id = ++S->strings;
        }
        strings.insert(unsigned(id), "string " + std::to_string(id));
        if (!strings.exists(unsigned(id)) || strings.getValue(unsigned(id)) != "string " + std::to_string(id))
          vio({ "C23", "C15" }, "a name that was inserted cannot be looked up");
        break;
      }
      case 7:
      {
        auto b = col->getBuffer();
        if (!b || (t->buffered && b.get() != t->buf))
          vio({ "C23", "C13" }, "a thread's event buffer changes");
        t->buffered = true;
        t->buf = b.get();
        buf = b;
        break;
      }
      default:
      {
        auto m = col->getActiveMap();
        auto it = m.find(t->tid);
        if (t->buffered && (it == m.end() || it->second.get() != t->buf))
          vio({ "C23", "C13" }, "the event buffer of a living thread is not listed");
        break;
      }
    }
  }
  {
    sim::Quiet q;
    static std::vector<tracepoint_collector_types::ScopeBufferPtr>* keep = nullptr;  // so that addresses identify buffers
    if (!keep)
      keep = new std::vector<tracepoint_collector_types::ScopeBufferPtr>;
    if (buf)
      keep->push_back(buf);
  }
}
void collect()
{
  auto got = TracePointCollectorNative::getInstance()->retrieveAndClearOrphanedBuffers();
  sim::Quiet q;
  for (auto& b : got)
    S->orphaned[b.second.get()]++;
}
}  // namespace singletons

SCENARIO(singletons)
{
  using namespace singletons;
  S = new SWorld;
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_TIDREUSE, 600);
  sim::enable(sim::F_HEAPREUSE, 300);
  if (sim::flip(1, 2))
    TracePointCollectorNative::getInstance()->setRingbufferSize(4);
  std::vector<sim::Task> tasks;
  const int spawners = int(sim::range(1, 3));
  for (int i = 0; i < spawners; i++)
    tasks.push_back(sim::spawn(sim::main_pid(), "spawner", [] {
      for (uint64_t k = sim::range(1, 3); k > 0; k--)
      {
        Th* t;
        {
          sim::Quiet q;
          t = new Th;
          S->th.push_back(t);
        }
        auto x = sim::spawn(sim::main_pid(), "user", [t] {
          t->tid = static_cast<unsigned long>(pthread_self());
          own_ops(t);
        });
        x.join();
        sim::Quiet q;
        t->exited = true;
      }
    }));
  tasks.push_back(sim::spawn(sim::main_pid(), "collector", [] {
    for (uint64_t k = sim::choose(5); k > 0; k--)
    {
      collect();
      (void)TraceConfigurator::getInstance()->getThreadMap();
      (void)TracePointCollectorNative::getInstance()->getActiveMap();
      (void)ThreadNameTracker::getInstance().getMap();
      (void)StaticStringTracker::getInstance().getMap();
      sim::sleep_ns(sim::range(0, 200) * 1000);
    }
  }));
  for (auto& t : tasks)
    t.join();
  collect();
  auto states = TraceConfigurator::getInstance()->getThreadMap();
  auto names = ThreadNameTracker::getInstance().getMap();
  auto active = TracePointCollectorNative::getInstance()->getActiveMap();
  auto strings = StaticStringTracker::getInstance().getMap();
  const bool on = TraceConfigurator::getInstance()->getProcessState();
  sim::Quiet q;
  if (int(on) - 1 != S->sum)
    vio({ "C23", "C14" }, "what setting the process state reported as the previous state does not add up: updates are not atomic");
  std::set<const void*> want;
  for (Th* t : S->th)
  {
    if (states.count(t->tid))
      vio({ "C23", "C14" }, "a thread that exited is still in the table of states");
    if (names.count(t->tid))
      vio({ "C23", "C11" }, "a thread that exited still has a name");
    if (active.count(t->tid))
      vio({ "C23", "C13" }, "the event buffer of a thread that exited counts as active");
    if (t->buffered)
      want.insert(t->buf);
  }
  for (auto b : want)
    if (S->orphaned[b] != 1)
      vio({ "C23", "C13" }, "the event buffer of a thread that exited was handed to the collector %d times", S->orphaned[b]);
  for (auto& o : S->orphaned)
    if (o.second && !want.count(o.first))
      vio({ "C23", "C13" }, "the collector was handed a buffer of nobody");
  if (int(strings.size()) != S->strings)
    vio({ "C23", "C15" }, "%d of %d names were kept", int(strings.size()), S->strings);
  if (!want.empty())
    sim::probe("buffers-orphaned");
}
