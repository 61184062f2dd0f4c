// C15: whoever sees an event can ask for its name right away. Each place in the traced programs is passed for the
// first time, by several threads at once, while threads stall wherever they are.
namespace fresh
{
struct Seen
{
  std::map<int, std::set<uint32_t>> ids;  // by process, not asked about yet
  size_t total{ 0 };
};
Seen* F;
// sees the events the moment they arrive
class Watcher : public Endpoint
{
public:
  std::string getName() const override { return "native_trace_receiver"; }
  bool unsolicited(Transport&, const Data& incoming, Data&) override
  {
    std::map<std::string, cbor::cbor_object> parsed;
    cbor::from_cbor(parsed, incoming);
    const int pid = static_cast<int>(parsed.at("pid").get<unsigned long>());
    tracepoint_collector_types::ThreadedEvents events;
    parsed.at("events").get_to(events);
    sim::Quiet q;
    for (auto& t : events)
      for (auto& e : t.second)
      {
        F->ids[pid].insert(e.trace_id);
        F->total++;
      }
    return false;
  }
};
}  // namespace fresh

SCENARIO(fresh_names)
{
  using namespace fresh;
  W = new World;
  F = new Seen;
  sim::enable(sim::F_EINTR_READ, 20);
  sim::enable(sim::F_SHORT_READ, 20);
  sim::enable_exact(sim::F_PAUSE, 20 + int(sim::choose(100)));
  const int n = 1 + int(sim::flip(1, 4));
  for (int i = 0; i < n; i++)
    start_proc(i, 1 | 4 | 16);
  const int con = sim::new_proc("viewer");
  struct Link
  {
    Transport::Ptr t;
    EndpointTraceMapping::Ptr names;
    int pid;
  };
  auto links = new std::vector<Link>;
  sim::run_as(con, [&] {
    TransportUnixFactory f;
    for (auto& to : f.discover())
      for (int k = 0; k < 50; k++)
      {
        Link l;
        l.t = f.connect(to);
        if (!l.t)
        {
          sim::sleep_ms(5);
          continue;
        }
        l.t->addEndpoint(std::make_shared<Watcher>());
        l.names = std::static_pointer_cast<EndpointTraceMapping>(EndpointTraceMapping::factory(l.t));
        l.pid = 0;
        sscanf(std::string(*to).c_str(), "<unix:%d", &l.pid);
        links->push_back(l);
        break;
      }
    // the server knows them once it has answered
    for (auto& l : *links)
      try
      {
        l.names->mapping();
      }
      catch (const std::exception&)
      {
      }
  });
  std::vector<sim::Task> tasks;
  bool* stop = new bool(false);
  for (int i = 0; i < n; i++)
  {
    auto order = std::make_shared<std::vector<int>>();
    for (size_t k = 0; k < W->procs[size_t(i)].defs.size(); k++)
      order->insert(order->begin() + long(sim::choose(order->size() + 1)), int(k));
    const int threads = 1 + int(sim::choose(3));
    for (int k = 0; k < threads; k++)
      tasks.push_back(sim::spawn(W->procs[size_t(i)].pid, "traced", [i, order] {
        const ProducerApi* api = W->procs[size_t(i)].api;
        for (int which : *order)
        {
          if (sim::flip(1, 3))
            sim::sleep_ns(sim::range(0, 12) * MS);
          api->emit(which, which, [] { sim::yield(); });
          sim::ev("tracepoint");
        }
      }));
  }
  // asks
  std::vector<sim::Task> askers;
  for (auto& l : *links)
    askers.push_back(sim::spawn(con, "asker", [&l, stop] {
      for (;;)
      {
        sim::wait_until([&l, stop] { return *stop || !F->ids[l.pid].empty(); }, SEC);
        std::set<uint32_t> ids;
        {
          sim::Quiet q;
          ids.swap(F->ids[l.pid]);
          if (ids.empty() && *stop)
            break;
        }
        if (ids.empty())
          continue;
        EndpointTraceMapping::ProcessTraceMap m;
        try
        {
          m = l.names->mapping();
        }
        catch (const std::exception&)
        {
        }
        sim::ev("names-query");
        sim::Quiet q;
        auto it = m.find(l.pid);
        if (it == m.end())
        {
          sim::probe("names-unanswered");
          continue;
        }
        sim::probe("names-answered");
        for (auto id : ids)
          if (!it->second.count(id))
            vio({ "C15" }, "an event with id %x of process %d was seen before its name could be asked for", id, l.pid);
      }
    }));
  for (auto& t : tasks)
    t.join();
  sim::faults_off();
  sim::sleep_ms(100);
  {
    sim::Quiet q;
    *stop = true;
  }
  for (auto& t : askers)
    t.join();
  sim::run_as(con, [&] { links->clear(); });
  for (auto& p : W->procs)
    sim::run_as(p.pid, [&] { p.api->destroy(p.h, 0); });
}
