// C17: recordings are isolated from each other; chunks of data arrive on several transport threads.
namespace
{
class NoTransport : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
};
struct Chunk
{
  int64_t a{ NEVER }, b{ NEVER };
  bool good{ true };
  std::vector<int64_t> ids;  // microseconds
};
struct Period
{
  int64_t s0, s1, p0{ NEVER }, p1{ NEVER };
  bool finished{ false };
};
struct Session
{
  std::vector<Period> per;
  std::map<size_t, int> handed;  // chunk -> how often
};
struct Sessions
{
  std::vector<Chunk> chunks;
  std::map<int64_t, size_t> by_id;
  int64_t next_id{ 1 };
};
Sessions* SS;

Data encode_chunk(const Chunk& c, int pid, int kind)
{
  tracepoint_collector_types::ThreadedEvents ev;
  const int nt = int(c.ids.size() > 1 ? 1 + sim::choose(2) : 1);
  for (size_t k = 0; k < c.ids.size(); k++)
  {
    tracepoint_collector_types::StaticTraceEvent e;
    e.time_point = uint64_t(c.ids[k]) * 1000;
    e.trace_id = uint32_t(1 + sim::choose(3));
    e.trace_type = uint8_t(1 + sim::choose(6));
    if (e.trace_type == 6)
    {
      e.dynamic_data.reset(new Data);
      cbor::to_cbor(c.ids[k], *e.dynamic_data);
    }
    ev[1 + k % size_t(nt)].push_back(std::move(e));
  }
  if (kind == 1)  // counters without a value
    for (auto& t : ev)
      for (auto& e : t.second)
      {
        e.trace_type = 6;
        e.dynamic_data.reset();
      }
  if (kind == 2)
    for (auto& t : ev)
      for (auto& e : t.second)
        e.trace_type = 77;
  if (kind == 3)
    for (auto& t : ev)
      for (auto& e : t.second)
      {
        e.trace_type = 6;
        e.dynamic_data.reset(new Data{ 0xff, 0x01 });
      }
  std::map<std::string, cbor::cbor_object> m;
  if (kind != 4)
    m.emplace("pid", cbor::cbor_object{ static_cast<unsigned long>(pid) });
  if (kind != 5)
    m.emplace("events", cbor::cbor_object{ ev });
  Data out;
  cbor::to_cbor(m, out);
  if (kind == 6)
    out.resize(out.size() - std::min(out.size(), size_t(1 + sim::choose(out.size()))));
  if (kind == 7)
    for (size_t k = 0; k < 1 + out.size() / 8; k++)
      out[size_t(sim::choose(out.size()))] = uint8_t(sim::choose(256));
  if (kind == 8)
    out.clear();
  return out;
}

// what one finish handed out
void check_finish(Session& s, const std::vector<json>& r, int64_t f0, int64_t f1)
{
  std::map<size_t, std::map<int64_t, int>> got;
  for (auto& e : r)
  {
    const double ts = e.value("ts", -1.0);
    auto it = SS->by_id.find(int64_t(ts));
    if (it == SS->by_id.end())
      continue;  // from a malformed chunk
    got[it->second][int64_t(ts)]++;
  }
  Period* p = s.per.empty() ? nullptr : &s.per.back();
  if (p && p->p0 == NEVER)
  {
    p->p0 = f0;
    p->p1 = f1;
  }
  for (size_t k = 0; k < SS->chunks.size(); k++)
  {
    const Chunk& c = SS->chunks[k];
    if (!c.good)
      continue;
    auto g = got.find(k);
    const bool in = g != got.end();
    if (in)
    {
      size_t n = 0;
      for (auto& x : g->second)
      {
        n++;
        if (x.second != 1)
          vio({ "C17", "C13" }, "event %lld is %d times in one recording", (long long)x.first, x.second);
      }
      if (n != c.ids.size())
        vio({ "C17", "C13" }, "only %zu of the %zu events of a chunk are in the recording", n, c.ids.size());
      if (++s.handed[k] > 1)
        vio({ "C17" }, "an event was handed out by two finishes");
    }
    const bool may = p && c.b > p->s0 && c.a < p->p1;
    const bool must = p && !p->finished && c.a > p->s1 && c.b < p->p0;
    if (in && !may)
      vio({ "C17" }, "a recording has an event that did not arrive during its interval (chunk %zu, arrived %lld..%lld, interval %lld..%lld)", k,
          (long long)c.a, (long long)c.b, p ? (long long)p->s0 : -1LL, p ? (long long)p->p1 : -1LL);
    if (!in && must)
      vio({ "C17" }, "a recording lacks events that arrived during its interval (chunk %zu, arrived %lld..%lld, interval %lld..%lld)", k, (long long)c.a,
          (long long)c.b, (long long)p->s1, (long long)p->p0);
    if (in)
      sim::probe("chunk-recorded");
    if (must)
      sim::probe("chunk-required");
  }
  if (p)
    p->finished = true;
}
}  // namespace

SCENARIO(sessions)
{
  W = new World;
  SS = new Sessions;
  sim::enable(sim::F_STALL, 6);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_HEAPREUSE, 300);
  sim::enable(sim::F_OVERSLEEP, 100);
  auto mgr = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportUnixFactory>());
  auto prov = std::make_shared<NativeTraceProvider>(mgr);
  std::atomic<int> logged{ 0 };
  prov->setLogger([&logged](const std::string&) { logged++; });
  const bool hostile = sim::flip(1, 3);
  const int nf = 1 + int(sim::choose(3)), ns = 1 + int(sim::choose(3));
  std::vector<sim::Task> tasks;
  const int pid = sim::main_pid();
  for (int f = 0; f < nf; f++)
  {
    tasks.push_back(sim::spawn(pid, "feed", [&, f] {
      NoTransport nt;
      auto ep = prov->factory(nullptr);
      const int n = 1 + int(sim::choose(8));
      for (int k = 0; k < n; k++)
      {
        if (sim::flip(2, 3))
          sim::sleep_ns(sim::range(0, 12) * MS);
        size_t ci;
        Data d;
        {
          sim::Quiet q;
          ci = SS->chunks.size();
          Chunk c;
          const int kind = hostile && sim::flip(1, 3) ? 1 + int(sim::choose(8)) : 0;
          c.good = kind == 0;
          const int ne = 1 + int(sim::choose(4));
          for (int e = 0; e < ne; e++)
          {
            const int64_t id = c.good ? SS->next_id++ : 1000000 + SS->next_id++;
            c.ids.push_back(id);
            if (c.good)
              SS->by_id[id] = ci;
          }
          if (!c.good)
          {
            sim::fault_count(sim::F_GARBAGE);
            sim::probe("malformed-chunk");
          }
          d = encode_chunk(c, 100 + f, kind);
          c.a = tick();
          SS->chunks.push_back(c);
        }
        sim::ev("chunk");
        Data out;
        ep->unsolicited(nt, d, out);
        sim::Quiet q;
        SS->chunks[ci].b = tick();
      }
    }));
  }
  for (int s = 0; s < ns; s++)
    tasks.push_back(sim::spawn(pid, "session", [&] {
      const int lives = 1 + int(sim::choose(2));
      for (int l = 0; l < lives; l++)
      {
        auto src = prov->makeSource();
        std::weak_ptr<TraceEventSource> weak = src;
        Session* st = new Session;
        const int n = 1 + int(sim::choose(8));
        for (int k = 0; k < n; k++)
        {
          if (sim::flip(2, 3))
            sim::sleep_ns(sim::range(0, 15) * MS);
          int64_t a;
          {
            sim::Quiet q;
            a = tick();
          }
          switch (sim::choose(5))
          {
            case 0:
            case 1:
            {
              if (sim::flip(1, 2))
                src->work();
              src->startInterval();
              sim::Quiet q;
              sim::ev("start");
              const int64_t b = tick();
              if (!st->per.empty() && st->per.back().p0 == NEVER)
              {
                st->per.back().p0 = a;
                st->per.back().p1 = b;
              }
              Period p;
              p.s0 = a;
              p.s1 = b;
              st->per.push_back(p);
              break;
            }
            case 2:
            {
              src->stopInterval();
              sim::Quiet q;
              sim::ev("stop");
              if (!st->per.empty() && st->per.back().p0 == NEVER)
              {
                st->per.back().p0 = a;
                st->per.back().p1 = tick();
              }
              break;
            }
            default:
            {
              auto r = src->finishInterval();
              sim::Quiet q;
              sim::ev("finish");
              check_finish(*st, r, a, tick());
              break;
            }
          }
        }
        src.reset();
        // chunks that are being delivered right now may still refer to it
        if (!sim::wait_until([&] { return weak.expired(); }, 20 * SEC))
          vio({ "C17" }, "a source that was dropped still exists");
      }
    }));
  for (auto& t : tasks)
    t.join();
  sim::faults_off();
  // a provider that is gone takes nothing else with it
  auto src = prov->makeSource();
  src->startInterval();
  if (sim::flip(1, 2))
  {
    NoTransport nt;
    auto ep = prov->factory(nullptr);
    prov.reset();
    Data d, out;
    {
      sim::Quiet q;
      Chunk c;
      c.ids = { 5 };
      d = encode_chunk(c, 100, 0);
    }
    ep->unsolicited(nt, d, out);
    sim::probe("provider-gone");
  }
  src->stopInterval();
  src->finishInterval();
}
