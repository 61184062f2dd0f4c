// C22 (and C14, C15, C16, C17): recordings through LTTng.
namespace
{
struct Rec  // one tracepoint that reached the LTTng session
{
  int pid;
  unsigned long tid;
  std::string name, ts;
  int64_t s;
  bool printed{ false };
};
struct LtWorld
{
  std::vector<Rec> recs;
  std::vector<std::pair<std::string, std::string>> out;  // lines not yet given to the viewer
  Viewer* v{ nullptr };
  bool shuffle{ false }, noise{ false };
  int context{ 0 };  // what else the session records with each event
  int64_t last_noise{ 0 };
};
LtWorld* LW;

std::string noise_line()
{
  sim::fault_count(sim::F_GARBAGE);
  const int64_t t = realtime();
  const Thread* th = W->threads.empty() ? nullptr : W->threads[size_t(sim::choose(W->threads.size()))];
  const std::string pid = std::to_string(th ? th->pid : 77), tid = std::to_string(th ? th->tid : 78);
  const std::string ctx = "vpid = " + pid + ", pthread_id = " + tid;
  switch (sim::choose(16))
  {
    case 0: return "";
    case 1: return "[warning] Tracer discarded 12 events at [1.5] in { vpid = 3 }";
    case 2: return ctf_line(t, "other_domain:scope_entry", ctx, "id = 5");
    case 3: return ctf_line(t, "scalopus_scope_id:something_else", ctx, "id = 5");
    case 4: return ctf_line(t, "scalopus_scope_id:scope_entry", "pthread_id = " + tid, "id = 5");
    case 5: return ctf_line(t, "scalopus_scope_id:scope_exit", "vpid = " + pid, "id = 5");
    case 6: return ctf_line(t, "scalopus_scope_id:mark_event_thread", ctx, "");
    case 7: return ctf_line(t, "scalopus_scope_id:count_event", ctx, "id = 5");
    case 8: return ctf_line(t, "scalopus_scope_id:count_event", ctx, "value = 5");
    case 9: return ctf_line(t, "scalopus_scope_id:count_event", ctx, "id = 5, value = 99999999999999999999999");
    case 10: return ctf_line(t, "scalopus_scope_id:scope_entry", ctx, "id = 123456789012345678901234567890");
    case 11:
    {
      std::string l = ctf_line(t, "scalopus_scope_id:scope_entry", ctx, "id = 5");
      return l.substr(0, size_t(sim::choose(l.size() - 2)));
    }
    case 12: return ctf_line(t, "scalopus_scope_id:scope_entry", ctx, "name = \"x\"");
    case 13: return "[not a time] host scalopus_scope_id:scope_entry: { cpu_id = 1 }, { " + ctx + " }, { id = 5 }";
    case 14: return "[1e400] host scalopus_scope_id:scope_entry: { cpu_id = 1 }, { " + ctx + " }, { id = 5 }";
    default: return std::string(size_t(sim::range(1, 5000)), '\xff');
  }
}
void flush_out()
{
  for (auto& x : LW->out)
  {
    Line* n = new Line;
    n->text = x.first;
    n->owner = x.second;
    LW->v->todo.push_back(n);
  }
  LW->out.clear();
}
void print(const std::string& l, const std::string& owner)
{
  LW->out.push_back({ l, owner });
  if (!LW->v)
    return;
  flush_out();
  auto& todo = LW->v->todo;
  // the order of events of different buffers is not strict
  if (LW->shuffle && todo.size() >= std::max(LW->v->taken, LW->v->next) + 2 && todo[todo.size() - 1]->owner != todo[todo.size() - 2]->owner &&
      sim::flip(1, 2))
    std::swap(todo[todo.size() - 1], todo[todo.size() - 2]);
}
}  // namespace

void sim_lttng_emit(const char* provider, const char* name, const std::string& fields)
{
  sim::Quiet q;
  if (!LW)
    return;
  const int64_t t = realtime();
  Rec r;
  r.pid = getpid();
  r.tid = static_cast<unsigned long>(pthread_self());
  r.name = name;
  r.s = W->seq;
  char b[60];
  snprintf(b, sizeof b, "%lld.%09lld", (long long)(t / 1000000000), (long long)(t % 1000000000));
  r.ts = b;
  LW->recs.push_back(r);
  std::string ctx = "vpid = " + std::to_string(r.pid) + ", pthread_id = " + std::to_string(r.tid);
  if (LW->context == 1)
    ctx = "procname = \"an app\", " + ctx + ", vtid = 0x7f";
  else if (LW->context == 2)
    ctx = "perf_cycles = 99999999999999999999999, " + ctx + ", ratio = -1e999";
  print(ctf_line(t, std::string(provider) + ":" + name, ctx, fields),
        std::to_string(r.pid) + "/" + std::to_string(r.tid));
  if (LW->noise && sim::flip(1, 5))
    print(noise_line(), "");
}

namespace
{
// each recorded event stems from its own tracepoint, counting all recordings of one source
void conserve(const std::vector<json>& all)
{
  using Key = std::tuple<int, unsigned long, double, std::string>;
  std::map<Key, int> have;
  for (auto& r : LW->recs)
  {
    const char* k = r.name == "scope_entry" ? "B" : r.name == "scope_exit" ? "E" : r.name == "count_event" ? "C" : "i";
    have[Key(r.pid, r.tid, std::stod(r.ts) * 1e6, k)]++;
  }
  for (auto& j : all)
  {
    if (!j.is_object() || !j.count("ph") || !j.count("ts") || !j.count("pid") || !j.count("tid"))
      continue;  // reported elsewhere
    const double ts = j.at("ts").get<double>();
    // allow for rounding
    bool ok = false;
    for (auto it = have.begin(); it != have.end(); ++it)
      if (it->second > 0 && std::get<0>(it->first) == j.at("pid").get<int>() && std::get<1>(it->first) == j.at("tid").get<unsigned long>() &&
          std::get<3>(it->first) == j.at("ph").get<std::string>() && std::abs(std::get<2>(it->first) - ts) < 0.6)
      {
        it->second--;
        ok = true;
        break;
      }
    if (!ok)
    {
      vio({ "C22", "C17" }, "an event is recorded that did not happen or was recorded before: %s", show(j).c_str());
      return;
    }
  }
}
std::shared_ptr<EndpointManagerPoll>* lmgr;
std::shared_ptr<LttngProvider>* lprov;
}  // namespace

SCENARIO(lttng_trace)
{
  V = new LWorld;
  W = new World;
  LW = new LtWorld;
  W->lttng = true;
  const std::string prop = sim::deciding();
  const bool c14 = prop == "C14" || (prop.empty() && sim::flip(1, 3));
  tracing_faults();
  LW->shuffle = sim::flip(1, 3);
  LW->noise = sim::flip(1, 2);
  LW->context = sim::flip(1, 2) ? int(1 + sim::choose(2)) : 0;
  if (sim::flip(1, 6))
  {
    sim::enable_exact(sim::F_TIDREUSE, 0);
    sim::coarse_clock(sim::range(1, 2000) * 1000);
  }
  sim::set_exec_handler(viewer_main);
  const int n = 1 + int(sim::choose(2));
  const bool liar = sim::flip(1, 3), first = sim::flip(1, 2);
  int lp = 0;
  auto lt = new Transport::Ptr;
  const auto start_liar = [&] {
    lp = sim::new_proc("liar");
    sim::run_as(lp, [&] {
      *lt = TransportUnixFactory().serve();
      if (!*lt)
        return;
      (*lt)->addEndpoint(std::make_shared<EndpointIntrospect>());
      (*lt)->addEndpoint(std::make_shared<LiarMapping>());
    });
  };
  if (liar && first)
    start_liar();
  for (int i = 0; i < n; i++)
    start_proc(i, 1 | 4 | 8);
  if (liar && !first)
    start_liar();
  const bool aside = sim::flip(1, 4);
  if (aside)
    start_bystander(EndpointTraceConfigurator::name);
  const int con = sim::new_proc("viewer");
  lmgr = new std::shared_ptr<EndpointManagerPoll>;
  lprov = new std::shared_ptr<LttngProvider>;
  static Viewer* vw;
  vw = nullptr;
  V->prepare = [](Viewer* v) {
    vw = LW->v = v;
    flush_out();
  };
  TraceEventSource::Ptr src;
  size_t found = 0;
  int64_t start_seq = 0;
  sim::run_as(con, [&] {
    *lmgr = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportUnixFactory>());
    (*lmgr)->addEndpointFactory(EndpointTraceMapping::name, EndpointTraceMapping::factory);
    (*lmgr)->addEndpointFactory(EndpointTraceConfigurator::name, EndpointTraceConfigurator::factory);
    V->session = sim::flip(1, 2) ? "session" : "net://localhost/host/x/session";
    *lprov = std::make_shared<LttngProvider>(V->session, *lmgr);
    if (sim::flip(1, 2))
      (*lprov)->setLogger([](const std::string&) {});
    for (int k = 0; k < 300 && found < size_t(n); k++)
    {
      (*lmgr)->manage();
      found = 0;
      for (auto& t : (*lmgr)->endpoints())
        found += t.second.size() >= 2 ? 1 : 0;
      if (found < size_t(n))
        sim::sleep_ms(10);
    }
    for (int k = 0; (liar || aside) && k < 5; k++)
    {
      (*lmgr)->manage();
      sim::sleep_ms(10);
    }
    src = (*lprov)->makeSource();
    src->startInterval();
  });
  if (found < size_t(n))
  {
    vio({ "C09" }, "the manager did not find all processes");
    return;
  }
  std::vector<sim::Task> tasks;
  for (int i = 0; i < n; i++)
  {
    const int nt = 1 + int(sim::choose(3));
    for (int k = 0; k < nt; k++)
      tasks.push_back(traced_thread(size_t(i), c14, prop == "C16", false, 1 + int(sim::choose(6))));
  }
  // another recording comes and goes meanwhile
  if (sim::flip(1, 2))
    tasks.push_back(sim::spawn(con, "session", [] {
      auto s = (*lprov)->makeSource();
      std::vector<json> all;
      const int rounds = 1 + int(sim::choose(3));
      for (int k = 0; k < rounds; k++)
      {
        s->startInterval();
        s->work();
        sim::sleep_ns(sim::range(0, 40) * MS);
        if (sim::flip(1, 2))
          s->stopInterval();
        if (sim::flip(1, 4))
          continue;  // never finished
        auto r = s->finishInterval();
        sim::Quiet q;
        Check c;
        c.may_only = true;
        c.names_known = false;
        c.counters = false;
        c.not_after = W->seq;
        c.what = "second recording";
        verify(r, c);
        all.insert(all.end(), r.begin(), r.end());
        conserve(all);
      }
    }));
  const int victim = !c14 && n > 1 && sim::flip(1, 4) ? 1 : -1;
  if (victim >= 0)
    sim::kill_proc_after(W->procs[size_t(victim)].pid, sim::points_of(W->procs[size_t(victim)].pid) + uint64_t(sim::range(1, 3000)));
  std::vector<json> all;
  // the recording is restarted in between
  if (sim::flip(1, 3))
  {
    sim::sleep_ns(sim::range(0, 40) * MS);
    sim::run_as(con, [&] {
      if (sim::flip(2, 3))
      {
        auto r = src->finishInterval();
        sim::Quiet q;
        Check c;
        c.may_only = true;
        c.names_known = false;
        c.counters = false;
        c.not_after = W->seq;
        c.what = "first recording";
        verify(r, c);
        all = r;
      }
      src->startInterval();
      sim::Quiet q;
      start_seq = W->seq;
      sim::probe("restarted");
    });
  }
  for (auto& t : tasks)
    t.join();
  sim::faults_off();
  const bool ended = sim::flip(1, 4);  // the viewer closes its output
  sim::wait_until([] { return vw != nullptr; }, 60 * SEC);
  if (!vw)
  {
    vio({ "C21" }, "the viewer was not started");
    return;
  }
  {
    sim::Quiet q;
    vw->finish = ended;
    if (ended)
      vw->unfinished = "[1544361620.739021131] host scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = 1, pthread_id = 1 }, { id = 41";
  }
  if (!sim::wait_until([] { return vw->next >= vw->todo.size(); }, 60 * SEC))
    vio({ "C21", "C22" }, "the viewer cannot get rid of its output");
  sim::sleep_ms(500);
  Check c;
  c.required_from = start_seq;
  if (victim >= 0)
  {
    sim::kill_proc(W->procs[size_t(victim)].pid);
    c.dead.insert(W->procs[size_t(victim)].pid);
  }
  std::vector<json> res;
  sim::run_as(con, [&] {
    sim::Deadline d("C22", "finishing a recording", 60 * SEC);
    if (sim::flip(1, 2))
      src->stopInterval();
    res = src->finishInterval();
  });
  {
    sim::Quiet q;
    verify(res, c);
    all.insert(all.end(), res.begin(), res.end());
    conserve(all);
    if (!res.empty())
      sim::probe("events-recorded");
  }
  if (sim::flip(1, 3))
  {
    // a new interval starts with nothing
    sim::run_as(con, [&] {
      src->startInterval();
      res = src->finishInterval();
    });
    sim::Quiet q;
    if (!res.empty())
      vio({ "C17", "C22" }, "an interval during which nothing happened has %zu events", res.size());
  }
  sim::Deadline d("C21", "taking everything down", 60 * SEC);
  sim::run_as(con, [&] {
    if (sim::flip(1, 2))
      src.reset();
    (*lmgr)->stopPolling();
    lprov->reset();
    src.reset();
    lmgr->reset();
  });
  if (liar)
    sim::run_as(lp, [&] { lt->reset(); });
  for (size_t i = 0; i < W->procs.size(); i++)
  {
    Proc& p = W->procs[i];
    if (sim::alive(p.pid))
      sim::run_as(p.pid, [&] { p.api->destroy(p.h, 0); });
  }
}
