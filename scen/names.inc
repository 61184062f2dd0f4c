// C11: names of processes and threads as seen by queries and by recordings.
namespace names
{
struct NameWrite
{
  int64_t s, e;
  std::string v;
};
struct NThread
{
  int pid;
  unsigned long tid;
  std::vector<NameWrite> w;
  int64_t exit_s{ NEVER }, exit_e{ NEVER };
  std::set<std::string> places;
};
struct NProc
{
  int pid{ 0 };
  const ProducerApi* api{ nullptr };
  void* h{ nullptr };
  std::vector<NameWrite> w{ { -1, -1, "" } };
  bool victim{ false };
  int64_t dead_s{ NEVER };
};
struct NWorld
{
  int64_t seq{ 0 };
  std::vector<NProc*> procs;
  std::vector<NThread*> threads;
  int counter{ 0 };
};
NWorld* X;
int64_t now_seq() { return X->seq++; }

// which values may a reader have seen during [a, b]?
std::set<std::string> possible(const std::vector<NameWrite>& w, int64_t a, int64_t b)
{
  std::set<std::string> r;
  for (auto& x : w)
  {
    if (x.s > b)
      continue;
    bool hidden = false;
    for (auto& y : w)
      if (y.s > x.e && y.e < a)
        hidden = true;
    if (!hidden)
      r.insert(x.v);
  }
  return r;
}
std::string pick_name(const char* what)
{
  const int k = X->counter++;
  switch (sim::choose(7))
  {
    case 0: return "";
    case 1: return "same";
    case 2: return std::string(what) + " with \"quotes\" and \\ " + std::to_string(k);
    case 3: return std::string(size_t(sim::range(100, 40000)), char('a' + k % 26));
    case 4: return std::string("nul\0inside", 10) + std::to_string(k);
    default: return std::string(what) + " " + std::to_string(k);
  }
}
std::string brief(const std::string& s) { return s.size() > 40 ? s.substr(0, 40) + "...(" + std::to_string(s.size()) + ")" : s; }

sim::Task named_thread(NProc* p, int ops, NThread* t)
{
  return sim::spawn(p->pid, "named", [p, ops, t] {
    {
      sim::Quiet q;
      t->pid = p->pid;
      t->tid = static_cast<unsigned long>(pthread_self());
      X->threads.push_back(t);
    }
    for (int k = 0; k < ops; k++)
    {
      switch (sim::choose(4))
      {
        case 0: sim::sleep_ns(sim::range(1, 60) * MS); break;
        case 1: sim::yield(); break;
        default: break;
      }
      const int kind = int(sim::choose(4));
      std::string v;
      size_t i;
      {
        sim::Quiet q;
        v = kind == 3 ? (sim::flip(1, 2) ? "macro 1" : "macro 0") : pick_name("thread");
        if (kind == 3 && !t->places.insert(v).second)
          sim::probe("place-repeated");  // each TRACE_THREAD_NAME names a thread once
        else
          t->w.push_back({ now_seq(), NEVER, v });
        i = t->w.size() - 1;
      }
      if (kind == 3)
        p->api->name_thread_macro(v == "macro 1");
      else
        p->api->name_thread(v);
      sim::ev("name-thread");
      sim::Quiet q;
      if (t->w[i].e == NEVER)
        t->w[i].e = now_seq();
    }
    if (sim::flip(1, 2))
      sim::sleep_ns(sim::range(1, 80) * MS);
    sim::Quiet q;
    t->exit_s = now_seq();
  });
}
sim::Task spawner(NProc* p)
{
  return sim::spawn(p->pid, "spawner", [p] {
    const int n = 1 + int(sim::choose(5));
    std::vector<std::pair<sim::Task, NThread*>> open;
    for (int k = 0; k < n; k++)
    {
      NThread* t;
      {
        sim::Quiet q;
        t = new NThread;
      }
      open.push_back({ named_thread(p, int(sim::choose(4)), t), t });
      while (!open.empty() && (open.size() > 2 || k == n - 1 || sim::flip(1, 2)))
      {
        const size_t i = size_t(sim::choose(open.size()));
        open[i].first.join();
        sim::Quiet q;
        open[i].second->exit_e = now_seq();
        open.erase(open.begin() + long(i));
      }
    }
  });
}
void check(NProc* p, int64_t a, int64_t b, int pid, const std::string& name, const std::map<unsigned long, std::string>& threads, const char* how)
{
  if (pid != p->pid)
    vio({ "C11" }, "%s: process %d reports itself as %d", how, p->pid, pid);
  auto pn = possible(p->w, a, b);
  if (!pn.count(name))
    vio({ "C11" }, "%s: process name is '%s' and not '%s'", how, brief(name).c_str(), brief(*pn.rbegin()).c_str());
  std::map<unsigned long, std::set<std::string>> may;
  for (NThread* t : X->threads)
  {
    if (t->pid != p->pid)
      continue;
    if (t->exit_e > a)
    {
      auto s = possible(t->w, a, b);
      if (!s.empty())
        may[t->tid].insert(s.begin(), s.end());
    }
    bool named = false;
    for (auto& w : t->w)
      named = named || w.e < a;
    if (named && t->exit_s > b && !threads.count(t->tid))
      vio({ "C11" }, "%s: the name of living thread %lx ('%s') is missing", how, t->tid, brief(t->w.front().v).c_str());
    if (named && t->exit_s > b)
      sim::probe("living-named-thread");
  }
  for (auto& x : threads)
  {
    auto it = may.find(x.first);
    if (it == may.end())
      vio({ "C11" }, "%s: thread %lx ('%s') is listed, but it has exited or was never named", how, x.first, brief(x.second).c_str());
    else if (!it->second.count(x.second))
      vio({ "C11" }, "%s: thread %lx is called '%s' and not '%s'", how, x.first, brief(x.second).c_str(), brief(*it->second.rbegin()).c_str());
  }
  sim::probe("info-checked");
}
NProc* proc_of(int pid)
{
  for (NProc* p : X->procs)
    if (p->pid == pid)
      return p;
  return nullptr;
}
// metadata of one recording; those in `need` must be there
void check_metadata(const std::vector<json>& res, int64_t a, int64_t b, const std::set<int>& need, const char* how)
{
  std::map<int, std::string> name;
  std::map<int, std::map<unsigned long, std::string>> threads;
  for (auto& e : res)
  {
    if (e.value("ph", "") != "M")
    {
      vio({ "C11" }, "%s: something else than metadata: %s", how, e.dump().substr(0, 200).c_str());
      continue;
    }
    const int pid = e.at("pid").get<int>();
    const std::string n = e.at("args").at("name").get<std::string>();
    bool fresh;
    if (e.at("name") == "process_name")
      fresh = name.emplace(pid, n).second;
    else if (e.at("name") == "thread_name")
      fresh = threads[pid].emplace(e.at("tid").get<unsigned long>(), n).second;
    else
    {
      vio({ "C11" }, "%s: unknown metadata", how);
      continue;
    }
    if (!fresh)
      vio({ "C11" }, "%s: an entry appears twice", how);
  }
  for (auto& t : threads)
    if (!name.count(t.first))
      vio({ "C11" }, "%s: threads of process %d without the process", how, t.first);
  for (auto& x : name)
  {
    NProc* p = proc_of(x.first);
    if (!p || p->dead_s < a)
      vio({ "C11" }, "%s: an entry for process %d, which %s", how, x.first, p ? "is dead" : "does not exist");
    else
      check(p, a, b, x.first, x.second, threads[x.first], how);
  }
  for (int n : need)
    if (!name.count(n))
      vio({ "C11" }, "%s: nothing recorded about process %d, which is running", how, n);
}
// offers process information but never tells any
class LiarInfo : public Endpoint
{
public:
  std::string getName() const override { return EndpointProcessInfo::name; }
  bool handle(Transport&, const Data&, Data& out) override
  {
    sim::fault_count(sim::F_GARBAGE);
    json j = json::object();
    switch (sim::choose(7))
    {
      case 0: out = Data{ 1, 2, 3 }; return true;
      case 1: out = json::to_bson(j); return true;
      case 2: j["name"] = 5; out = json::to_bson(j); return true;
      case 3: j["name"] = "x"; j["threads"] = "y"; out = json::to_bson(j); return true;
      case 4: j["name"] = "x"; j["threads"] = json::array(); j["pid"] = "seven"; out = json::to_bson(j); return true;
      case 5: throw std::runtime_error("no information");
      default: return false;
    }
  }
};
}  // namespace names

SCENARIO(names)
{
  using namespace names;
  X = new NWorld;
  sim::enable(sim::F_EINTR_SELECT, 20);
  sim::enable(sim::F_EINTR_READ, 30);
  sim::enable(sim::F_EINTR_SEND, 30);
  sim::enable(sim::F_SHORT_READ, 50);
  sim::enable(sim::F_SHORT_SEND, 50);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 50);
  sim::enable(sim::F_TIMEJUMP, 10);
  sim::enable(sim::F_TIDREUSE, 600);
  sim::enable(sim::F_HEAPREUSE, 300);
  const bool liar = sim::flip(1, 4), first = sim::flip(1, 2);
  const auto start_liar = [] {
    const int lp = sim::new_proc("liar");
    sim::run_as(lp, [&] {
      TransportUnixFactory f;
      auto t = new Transport::Ptr(f.serve());
      if (*t)
      {
        (*t)->addEndpoint(std::make_shared<EndpointIntrospect>());
        (*t)->addEndpoint(std::make_shared<LiarInfo>());
      }
    });
  };
  if (liar && first)
    start_liar();
  const int n = 1 + int(sim::choose(2));
  for (int i = 0; i < n; i++)
  {
    NProc* p = new NProc;
    p->api = i == 0 ? producer_api_1() : producer_api_2();
    p->pid = sim::new_proc(i == 0 ? "app1" : "app2");
    X->procs.push_back(p);
    sim::run_as(p->pid, [&] { p->h = p->api->serve(1 | 2 | (sim::flip(1, 3) ? 4 | 8 : 0)); });
  }
  if (liar && !first)
    start_liar();
  const bool aside = sim::flip(1, 4);
  if (aside)
    start_bystander(EndpointTraceMapping::name);
  const int con = sim::new_proc("viewer");
  static std::shared_ptr<EndpointManagerPoll>* mgr;
  mgr = new std::shared_ptr<EndpointManagerPoll>;
  auto prov = new GeneralProvider::Ptr;
  size_t found = 0;
  sim::run_as(con, [&] {
    *mgr = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportUnixFactory>());
    (*mgr)->addEndpointFactory(EndpointProcessInfo::name, EndpointProcessInfo::factory);
    if (aside)
      (*mgr)->addEndpointFactory(EndpointTraceMapping::name, EndpointTraceMapping::factory);
    *prov = std::make_shared<GeneralProvider>(*mgr);
    for (int k = 0; k < 300 && found < size_t(n + liar + aside); k++)
    {
      (*mgr)->manage();
      found = 0;
      for (auto& t : (*mgr)->endpoints())
        found += t.second.empty() ? 0 : 1;
      if (found < size_t(n + liar + aside))
        sim::sleep_ms(10);
    }
  });
  if (found < size_t(n + liar + aside))
  {
    vio({ "C09" }, "the manager did not find all processes");
    return;
  }
  std::vector<sim::Task> tasks;
  for (NProc* p : X->procs)
  {
    const int sp = 1 + int(sim::choose(2));
    for (int k = 0; k < sp; k++)
      tasks.push_back(spawner(p));
    const int setters = int(sim::choose(3));
    for (int k = 0; k < setters; k++)
      tasks.push_back(sim::spawn(p->pid, "renamer", [p] {
        const int m = 1 + int(sim::choose(4));
        for (int j = 0; j < m; j++)
        {
          if (sim::flip(1, 2))
            sim::sleep_ns(sim::range(1, 60) * MS);
          std::string v;
          size_t i;
          {
            sim::Quiet q;
            v = pick_name("proc");
            p->w.push_back({ now_seq(), NEVER, v });
            i = p->w.size() - 1;
          }
          p->api->set_process_name(p->h, v);
          sim::ev("name-process");
          sim::Quiet q;
          p->w[i].e = now_seq();
        }
      }));
  }
  const int victim = n > 1 && sim::flip(1, 3) ? int(sim::choose(2)) : -1;
  if (victim >= 0)
  {
    NProc* v = X->procs[size_t(victim)];
    v->victim = true;
    sim::on_kill(v->pid, [v] { v->dead_s = now_seq(); });
    sim::kill_proc_after(v->pid, sim::points_of(v->pid) + uint64_t(sim::range(1, 2000)));
  }
  if (sim::flip(1, 4))
    sim::run_as(con, [&] { (*mgr)->startPolling(0.05); });
  // direct queries
  auto query = [](NProc* p, bool must) {
    EndpointProcessInfo::Ptr ep;
    char want[40];
    snprintf(want, sizeof want, "<unix:%d>", p->pid);
    const auto held = (*mgr)->endpoints();  // an endpoint is used while its transport is held
    for (auto& t : held)
      if (std::string(*t.first->getAddress()) == want)
        ep = EndpointManager::findEndpoint<EndpointProcessInfo>(t.second);
    if (!ep)
    {
      if (must)
        vio({ "C11" }, "the endpoint of running process %d is gone", p->pid);
      return;
    }
    EndpointProcessInfo::ProcessInfo info;
    bool ok = true;
    int64_t a;
    {
      sim::Quiet q;
      a = now_seq();
    }
    try
    {
      info = ep->processInfo();
    }
    catch (const std::exception&)
    {
      ok = false;
    }
    sim::ev("info-query");
    sim::Quiet q;
    const int64_t b = now_seq();
    if (!ok || info.pid == 0)
    {
      sim::probe("info-unanswered");
      if (!info.name.empty() || !info.threads.empty())
        vio({ "C11" }, "a query that failed returns names");
      if (must)
        vio({ "C11" }, "a query of running process %d failed", p->pid);
      return;
    }
    if (p->dead_s < a)
      vio({ "C11" }, "a dead process answers");
    check(p, a, b, info.pid, info.name, std::map<unsigned long, std::string>(info.threads.begin(), info.threads.end()), "query");
  };
  const int queriers = 1 + int(sim::choose(2));
  for (int k = 0; k < queriers; k++)
    tasks.push_back(sim::spawn(con, "query", [query] {
      const int m = 1 + int(sim::choose(4));
      for (int j = 0; j < m; j++)
      {
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(1, 60) * MS);
        query(X->procs[size_t(sim::choose(X->procs.size()))], false);
      }
    }));
  const int recorders = int(sim::choose(3));
  for (int k = 0; k < recorders; k++)
    tasks.push_back(sim::spawn(con, "recorder", [prov] {
      TraceEventSource::Ptr src = (*prov)->makeSource();
      const int m = 1 + int(sim::choose(3));
      for (int j = 0; j < m; j++)
      {
        src->startInterval();
        src->work();
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(1, 60) * MS);
        int64_t a;
        {
          sim::Quiet q;
          a = now_seq();
        }
        auto res = src->finishInterval();
        sim::ev("recording");
        sim::Quiet q;
        check_metadata(res, a, now_seq(), {}, "recording");
      }
    }));
  for (auto& t : tasks)
    t.join();
  {
    sim::Quiet q;
    const int64_t s = now_seq();
    for (NThread* t : X->threads)
      t->exit_e = std::min(t->exit_e, s);  // all joined
  }
  sim::faults_off();
  sim::sleep_ms(300);
  // a few that stay
  for (NProc* p : X->procs)
    if (p->victim)
      sim::kill_proc(p->pid);
  sim::sleep_ms(50);
  std::vector<sim::Task> stay;
  bool* stop = new bool(false);
  for (NProc* p : X->procs)
    if (!p->victim)
    {
      const int m = int(sim::choose(3));
      for (int k = 0; k < m; k++)
        stay.push_back(sim::spawn(p->pid, "stay", [p, stop] {
          NThread* t;
          std::string v;
          {
            sim::Quiet q;
            t = new NThread;
            t->pid = p->pid;
            t->tid = static_cast<unsigned long>(pthread_self());
            v = pick_name("stay");
            t->w.push_back({ now_seq(), NEVER, v });
            X->threads.push_back(t);
          }
          p->api->name_thread(v);
          {
            sim::Quiet q;
            t->w[0].e = now_seq();
          }
          sim::wait_until([stop] { return *stop; }, 100 * SEC);
          sim::Quiet q;
          t->exit_s = now_seq();
        }));
    }
  sim::sleep_ms(50);
  sim::run_as(con, [&] {
    sim::Deadline d("C11", "the last queries", 30 * SEC);
    for (NProc* p : X->procs)
      if (!p->victim)
        query(p, true);
    TraceEventSource::Ptr src = (*prov)->makeSource();
    src->startInterval();
    src->stopInterval();
    int64_t a;
    std::set<int> need;
    {
      sim::Quiet q;
      a = now_seq();
      for (NProc* p : X->procs)
        if (!p->victim)
          need.insert(p->pid);
    }
    auto res = src->finishInterval();
    {
      sim::Quiet q;
      check_metadata(res, a, now_seq(), need, "last recording");
    }
    src.reset();
    (*mgr)->stopPolling();
    prov->reset();
    mgr->reset();
  });
  *stop = true;
  for (auto& t : stay)
    t.join();
  for (NProc* p : X->procs)
    if (!p->victim)
      sim::run_as(p->pid, [&] { p->api->destroy(p->h, 0); });
}
