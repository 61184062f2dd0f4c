// Scenarios for discovery and the endpoint manager (C09) and for the shared registries (C23).
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/map_tracker.h>
#include <scalopus_interface/exceptions.h>
#include <scalopus_interface/transport.h>
#include <scalopus_interface/transport_factory.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_transport/transport_unix.h>
#include <pthread.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/trace_configurator.h>
#include <mutex>
#include "common.h"
#include "tracepoint_collector_native.h"
using namespace scalopus;

namespace
{
std::string addr_of(int pid)
{
  char b[40];
  snprintf(b, sizeof b, "<unix:%d>", pid);
  return b;
}
class NamedEP : public Endpoint
{
public:
  explicit NamedEP(std::string n) : n_(std::move(n)) {}
  std::string getName() const override { return n_; }
  bool handle(Transport&, const Data& in, Data& out) override
  {
    out = in;
    return true;
  }

private:
  std::string n_;
};
// an introspection endpoint that misbehaves for a while
class BadIntrospect : public EndpointIntrospect
{
public:
  int bad;
  int kind;
  BadIntrospect(int n, int k) : bad(n), kind(k) {}
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    if (bad > 0)
    {
      bad--;
      sim::fault_count(sim::F_GARBAGE);
      switch (kind)
      {
        case 0: out = Data{ 1, 2, 3 }; return true;
        case 1: return false;
        case 2: throw std::runtime_error("introspection failed");
        case 3: sim::sleep_ms(350); break;
        case 4: out = Data{ 5, 0, 0, 0, 0 }; return true;  // a document without endpoints
      }
    }
    return EndpointIntrospect::handle(t, in, out);
  }
};
struct Srv
{
  int pid = 0;
  Transport::Ptr t;
  std::set<std::string> eps;  // offered
  bool serving = false;
  bool introspects = true;
};
struct GWorld
{
  std::vector<Srv*> servers;
};
GWorld* G;
const char* const EPN[] = { "alpha", "beta", "gamma", "delta" };

void add_ep(Srv* s, const std::string& n)
{
  s->t->addEndpoint(std::make_shared<NamedEP>(n));
  sim::Quiet q;
  s->eps.insert(n);
}
void start(Srv* s)
{
  TransportUnixFactory f;
  s->t = f.serve();
  {
    sim::Quiet q;
    s->eps.clear();
    s->serving = bool(s->t);
  }
  if (!s->t)
    return;
  s->introspects = !sim::flip(1, 8);
  if (s->introspects)
  {
    const bool forever = sim::flip(1, 10);  // never tells what it offers, which is nobody else's problem
    if (forever)
    {
      static const int kinds[] = { 0, 1, 2, 4 };
      s->introspects = false;
      s->t->addEndpoint(std::make_shared<BadIntrospect>(1 << 30, kinds[sim::choose(4)]));
    }
    else if (sim::flip(1, 3))
      s->t->addEndpoint(std::make_shared<BadIntrospect>(int(sim::range(1, 4)), int(sim::choose(5))));
    else
      s->t->addEndpoint(std::make_shared<EndpointIntrospect>());
    sim::Quiet q;
    s->eps.insert("introspect");
  }
  int n = int(sim::choose(4));
  for (int i = 0; i < n; i++)
    add_ep(s, EPN[sim::choose(4)]);
  if (sim::flip(1, 2))
  {
    s->t->addEndpoint(std::make_shared<EndpointProcessInfo>());
    sim::Quiet q;
    s->eps.insert("process_info");
  }
  sim::ev("serve");
}
void stop(Srv* s)
{
  sim::Deadline d("C09", "destroying a server", 30 * SEC);
  {
    sim::Quiet q;
    s->serving = false;
  }
  s->t.reset();
}
}  // namespace

SCENARIO(manager)
{
  G = new GWorld;
  sim::enable(sim::F_EINTR_SELECT, 40);
  sim::enable(sim::F_EINTR_READ, 60);
  sim::enable(sim::F_EINTR_SEND, 60);
  sim::enable(sim::F_SHORT_READ, 100);
  sim::enable(sim::F_SHORT_SEND, 100);
  sim::enable(sim::F_FRAG_SEND, 150);
  sim::enable(sim::F_CONNECT_FAIL, 200);
  sim::enable(sim::F_SOCKET_FAIL, 50);
  sim::enable(sim::F_ACCEPT_FAIL, 50);
  sim::enable(sim::F_THREAD_FAIL, 50);
  sim::enable(sim::F_TIMEJUMP, 30);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 100);
  sim::enable(sim::F_SPURIOUS, 50);
  if (sim::flip(1, 2))
  {
    static const char* const noise[] = { "0000000000000000: 00000002 00000000 00010000 0001 01 23519 @/tmp/.X11-unix/X0",
                                         "0000000000000000: 00000003 00000000 00000000 0001 03 23520 /run/systemd/journal/stdout",
                                         "0000000000000000: 00000002 00000000 00010000 0001 01 23521 @77777_scalopus_old",
                                         "0000000000000000: 00000003 00000000 00000000 0001 03 23522",
                                         "0000000000000000: 00000002 00000000 00010000 0001 01 23523 /tmp/12345_scalopus",
                                         "0000000000000000: 00000002 00000000 00010000 0001 01 23524 @my_scalopus",
                                         "0000000000000000: 00000002 00000000 00010000 0001 01 23525 @_scalopus",
                                         "0000000000000000: 00000002 00000000 00010000 0001 01 23526 @other 14242_scalopus",
                                         "_scalopus", "" };
    int n = int(sim::range(1, 5));
    for (int i = 0; i < n; i++)
    {
      sim::fault_count(sim::F_NOISE);
      sim::add_proc_net_noise(noise[sim::choose(10)]);
    }
  }
  int np = int(sim::range(1, 3));
  for (int i = 0; i < np; i++)
  {
    auto s = new Srv;
    s->pid = sim::new_proc(i == 0 ? "s0" : i == 1 ? "s1" : "s2");
    G->servers.push_back(s);
  }
  int mp = sim::new_proc("manager");
  EndpointManagerPoll* mgr = nullptr;
  std::set<std::string> known{ "introspect", "alpha", "beta", "process_info" };
  const double interval = double(sim::range(1, 40)) / 20.0;
  sim::run_as(mp, [&] {
    auto f = std::make_shared<TransportUnixFactory>();
    mgr = new EndpointManagerPoll(f);
    if (sim::flip(1, 2))
      mgr->setLogger([](const std::string&) {});
    for (auto n : { "alpha", "beta" })
    {
      std::string nm = n;
      mgr->addEndpointFactory(nm, [nm](const Transport::Ptr&) { return std::make_shared<NamedEP>(nm); });
    }
    mgr->addEndpointFactory("gamma", [](const Transport::Ptr&) { return Endpoint::Ptr{}; });  // a factory that declines
    mgr->addEndpointFactory<EndpointProcessInfo>();
  });
  const bool polling = sim::flip(2, 3);
  bool stop_manage = false;
  std::vector<sim::Task> tasks;
  for (auto s : G->servers)
    tasks.push_back(sim::spawn(s->pid, "life", [s] {
      sim::sleep_ns(sim::range(0, 20) * 100 * MS);
      start(s);
      int n = int(sim::range(0, 3));
      for (int i = 0; i < n; i++)
      {
        sim::sleep_ns(sim::range(0, 20) * 100 * MS);
        switch (sim::choose(4))
        {
          case 0:
            if (s->t)
              add_ep(s, EPN[sim::choose(4)]);
            break;
          case 1:  // restart in the same process
            if (s->t)
              stop(s);
            if (sim::flip(1, 2))
              sim::sleep_ns(sim::range(0, 20) * 50 * MS);
            start(s);
            sim::probe("server-restarted");
            break;
          case 2:
            if (s->t)
              stop(s);
            sim::probe("server-stopped");
            break;
          case 3: sim::stall_proc(s->pid, sim::range(1, 30) * 50 * MS); break;
        }
      }
    }));
  // deaths
  for (auto s : G->servers)
    if (sim::flip(1, 4))
    {
      sim::fault_count(sim::F_KILL);
      sim::on_kill(s->pid, [s] { s->serving = false; });
      sim::kill_proc_after(s->pid, uint64_t(sim::range(5, 2500)));
    }
  bool reading = true;
  std::vector<sim::Task> mtasks;
  if (polling)
    sim::run_as(mp, [&] {
      for (;;)
        try
        {
          mgr->startPolling(interval);
          break;
        }
        catch (const std::system_error&)
        {
          // no thread for it; it can be tried again, or given up
          sim::probe("polling-not-started");
          if (sim::flip(1, 4))
          {
            EndpointManagerPoll other(std::make_shared<TransportUnixFactory>());
            try
            {
              other.startPolling(interval);
            }
            catch (const std::system_error&)
            {
            }
          }
          if (sim::flip(1, 2))
            mgr->stopPolling();
        }
    });
  else
    mtasks.push_back(sim::spawn(mp, "manage", [&] {
      for (;;)
      {
        {
          sim::Quiet q;
          if (stop_manage)
            return;
        }
        try
        {
          mgr->manage();
        }
        catch (const std::exception& e)
        {
          vio({ "C09" }, "managing the endpoints threw: %s", e.what());
        }
        sim::sleep_ns(int64_t(interval * 1e9));
      }
    }));
  tasks.push_back(sim::spawn(mp, "reader", [&] {
    int n = int(sim::range(0, 8));
    for (int i = 0; i < n; i++)
    {
      auto e = mgr->endpoints();
      std::map<std::string, int> per;
      for (auto& t : e)
      {
        std::string a = std::string(*t.first->getAddress());
        if (t.first->isConnected() && ++per[a] > 1)
        {
          // two transports to one address: both connected at this instant?
          int c = 0;
          for (auto& u : e)
            c += std::string(*u.first->getAddress()) == a && u.first->isConnected();
          if (c > 1)
            vio({ "C09" }, "two connected transports to %s", a.c_str());
        }
        for (auto& ep : t.second)
          if (!ep.second || !known.count(ep.first))
            vio({ "C09" }, "the manager exposes an endpoint it has no factory for: %s", ep.first.c_str());
      }
      sim::sleep_ns(sim::range(0, 10) * 100 * MS);
    }
  }));
  for (auto& t : tasks)
    t.join();
  (void)reading;
  sim::faults_off();
  for (auto s : G->servers)
    if (sim::alive(s->pid))
      sim::kill_proc_after(s->pid, ~0ULL >> 1);
  // settled: the servers neither start nor stop any more
  auto converged = [&](std::string& why) {
    TransportFactory* tf = nullptr;
    (void)tf;
    EndpointManagerPoll::TransportEndpoints e;
    e = mgr->endpoints();
    sim::Quiet q;
    std::map<std::string, std::set<std::string>> got;
    for (auto& t : e)
    {
      std::string a = std::string(*t.first->getAddress());
      if (!t.first->isConnected())
      {
        why = "transport to " + a + " is not connected";
        return false;
      }
      if (got.count(a))
      {
        why = "two transports to " + a;
        return false;
      }
      auto& g = got[a];
      for (auto& ep : t.second)
        g.insert(ep.first);
    }
    size_t live = 0;
    for (auto s : G->servers)
    {
      if (!s->serving || !sim::alive(s->pid))
        continue;
      live++;
      auto it = got.find(addr_of(s->pid));
      if (it == got.end())
      {
        why = "no transport to live server " + addr_of(s->pid);
        return false;
      }
      std::set<std::string> want;
      if (s->introspects)
        for (auto& n : s->eps)
          if (known.count(n))
            want.insert(n);
      if (it->second != want)
      {
        why = "endpoints of " + addr_of(s->pid) + " differ:";
        for (auto& n : it->second)
          why += " +" + n;
        for (auto& n : want)
          why += " wanted " + n;
        return false;
      }
    }
    if (got.size() != live)
    {
      why = "a transport to a server that no longer exists";
      return false;
    }
    return true;
  };
  std::string why;
  bool ok = false;
  sim::run_as(mp, [&] {
    sim::Deadline dl("C09", "asking the manager for its endpoints", 120 * SEC);
    sim::sleep_ms(200);  // connections to servers that have just stopped are noticed as such
    // bad introspection lasts for at most 4 polls; a poll takes at most the interval and 0.2 s per server
    int64_t end = sim::now() + int64_t((interval + 1.0) * 12 * 1e9) + 5 * SEC;
    while (!ok && sim::now() < end)
    {
      ok = converged(why);
      if (!ok)
        sim::sleep_ms(100);
    }
    if (!ok)
      vio({ "C09" }, "the manager did not converge to the live servers: %s", why.c_str());
    else
      sim::probe("converged");
    // and it stays that way
    sim::sleep_ns(int64_t(interval * 2.5e9));
    ok = converged(why);
    if (!ok)
    {
      sim::sleep_ms(400);
      ok = converged(why);
    }
    if (!ok)
      vio({ "C09" }, "the manager lost a live server or invented one: %s", why.c_str());
    // discovery lists exactly the serving processes
    TransportUnixFactory f;
    std::set<std::string> have, want;
    for (auto& d : f.discover())
      have.insert(std::string(*d));
    for (auto s : G->servers)
      if (s->serving && sim::alive(s->pid))
        want.insert(addr_of(s->pid));
    if (have != want)
    {
      std::string t;
      for (auto& h : have)
        t += " " + h;
      t += " instead of";
      for (auto& w : want)
        t += " " + w;
      vio({ "C09" }, "discovery lists%s", t.c_str());
    }
  });
  {
    sim::Quiet q;
    stop_manage = true;
  }
  for (auto& t : mtasks)
    t.join();
  {
    sim::Deadline dl("C09", "destroying the manager", 60 * SEC);
    sim::run_as(mp, [&] {
      if (sim::flip(1, 2) && polling)
      {
        mgr->stopPolling();
        mgr->startPolling(interval);
        if (sim::flip(1, 2))
          mgr->stopPolling();
      }
      delete mgr;
    });
  }
  if (sim::open_fds(mp))
    vio({ "C09", "C06" }, "the manager leaked descriptors: %s", sim::fd_summary(mp).c_str());
  for (auto s : G->servers)
    if (sim::alive(s->pid) && s->t)
      sim::run_as(s->pid, [&] { s->t.reset(); });
}

// ---- C23 ------------------------------------------------------------------------------------------------------------------------------
namespace
{
// Linearizability of small histories over a map<int,int>, by search with memoisation.
struct LOp
{
  enum Kind
  {
    INSERT,
    ERASE,
    EXISTS,
    GET,
    SNAP,
    CLEAR
  } kind;
  int key = 0, val = 0;
  uint64_t inv = 0, ret = 0;
  int res = 0;                  // EXISTS: 0/1, GET: value or -1 (absent)
  std::map<int, int> snap;
};
struct Lin
{
  const std::vector<LOp>& ops;
  std::set<std::pair<uint32_t, std::vector<int>>> seen;
  explicit Lin(const std::vector<LOp>& o) : ops(o) {}
  bool go(uint32_t done, std::map<int, int>& st)
  {
    if (done == (1u << ops.size()) - 1)
      return true;
    std::vector<int> flat;
    for (auto& e : st)
    {
      flat.push_back(e.first);
      flat.push_back(e.second);
    }
    if (!seen.insert({ done, flat }).second)
      return false;
    uint64_t min_ret = ~0ULL;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1))
        min_ret = std::min(min_ret, ops[i].ret);
    for (size_t i = 0; i < ops.size(); i++)
    {
      if (done >> i & 1 || ops[i].inv > min_ret)
        continue;
      const LOp& o = ops[i];
      auto it = st.find(o.key);
      switch (o.kind)
      {
        case LOp::INSERT:
        case LOp::ERASE:
        case LOp::CLEAR:
        {
          auto copy = st;
          if (o.kind == LOp::INSERT)
            copy[o.key] = o.val;
          else if (o.kind == LOp::ERASE)
            copy.erase(o.key);
          else
            copy.clear();
          if (go(done | 1u << i, copy))
            return true;
          break;
        }
        case LOp::EXISTS:
          if (o.res == int(it != st.end()) && go(done | 1u << i, st))
            return true;
          break;
        case LOp::GET:
          if (o.res == (it == st.end() ? -1 : it->second) && go(done | 1u << i, st))
            return true;
          break;
        case LOp::SNAP:
          if (o.snap == st && go(done | 1u << i, st))
            return true;
          break;
      }
    }
    return false;
  }
};
std::string show(const std::vector<LOp>& ops)
{
  static const char* const n[] = { "insert", "erase", "exists", "get", "snapshot", "clear" };
  std::string s;
  for (auto& o : ops)
  {
    s += " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "]" + n[o.kind] + "(" + std::to_string(o.key) +
         (o.kind == LOp::INSERT ? "," + std::to_string(o.val) : "") + ")";
    if (o.kind == LOp::EXISTS || o.kind == LOp::GET)
      s += "=" + std::to_string(o.res);
    if (o.kind == LOp::SNAP)
    {
      s += "={";
      for (auto& e : o.snap)
        s += std::to_string(e.first) + ":" + std::to_string(e.second) + " ";
      s += "}";
    }
  }
  return s;
}
// the endpoint table and the broadcast queue of a transport
class TableTransport : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
  bool have() const { return haveBroadcast(); }
  std::pair<std::string, Data> pop() { return popBroadcast(); }
};
class ValEP : public NamedEP
{
public:
  int val;
  ValEP(const std::string& n, int v) : NamedEP(n), val(v) {}
};
}  // namespace

SCENARIO(registries)
{
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  const bool table = sim::flip(1, 3);
  MapTracker<int, std::string> tracker;
  auto tr = std::make_shared<TableTransport>();
  std::vector<LOp> hist;
  uint64_t clock = 0;
  const int nth = int(sim::range(2, 4)), nops = int(sim::range(1, 4)), nkeys = int(sim::range(1, 3));
  auto value = [](int v) { return "value number " + std::to_string(v) + " of this registry"; };
  auto key = [](int k) { return "key" + std::to_string(k); };
  std::vector<sim::Task> tasks;
  for (int t = 0; t < nth; t++)
    tasks.push_back(sim::spawn(sim::main_pid(), "user", [&, t] {
      for (int o = 0; o < nops; o++)
      {
        LOp op;
        op.key = int(sim::choose(uint64_t(nkeys)));
        op.val = t * 100 + o;
        op.kind = LOp::Kind(sim::choose(6));
        if (table && (op.kind == LOp::ERASE || op.kind == LOp::CLEAR))
          op.kind = LOp::INSERT;
        if (op.kind == LOp::CLEAR && sim::flip(1, 2))
          op.kind = LOp::GET;
        {
          sim::Quiet q;
          op.inv = ++clock;
        }
        if (table)
          switch (op.kind)
          {
            case LOp::INSERT: tr->addEndpoint(std::make_shared<ValEP>(key(op.key), op.val)); break;
            case LOp::EXISTS: op.res = tr->getEndpoint(key(op.key)) != nullptr; break;
            case LOp::GET:
            {
              auto e = tr->getEndpoint(key(op.key));
              op.res = e ? static_cast<ValEP*>(e.get())->val : -1;
              break;
            }
            default:
              for (auto& e : tr->endpoints())
                op.snap[atoi(e.first.c_str() + 3)] = static_cast<ValEP*>(e.second.get())->val;
              op.kind = LOp::SNAP;
          }
        else
          switch (op.kind)
          {
            case LOp::INSERT: tracker.insert(op.key, value(op.val)); break;
            case LOp::ERASE: tracker.erase(op.key); break;
            case LOp::CLEAR: tracker.clear(); break;
            case LOp::EXISTS: op.res = tracker.exists(op.key); break;
            case LOp::GET:
              try
              {
                std::string v = tracker.getValue(op.key);
                op.res = atoi(v.c_str() + 13);
                if (v != value(op.res))
                  vio({ "C23" }, "a registry returned '%s', which was never stored", v.c_str());
              }
              catch (const std::out_of_range&)
              {
                op.res = -1;
              }
              break;
            case LOp::SNAP:
              for (auto& e : tracker.getMap())
                op.snap[e.first] = atoi(e.second.c_str() + 13);
              break;
          }
        sim::Quiet q;
        op.ret = ++clock;
        hist.push_back(op);
        sim::ev("registry-op");
      }
    }));
  // the broadcast queue: several producers, one consumer
  const int prod = int(sim::range(0, 2)), each = int(sim::range(1, 4));
  std::vector<std::pair<int, int>> popped;
  for (int p = 0; p < prod; p++)
    tasks.push_back(sim::spawn(sim::main_pid(), "producer", [&, p] {
      for (int i = 0; i < each; i++)
        tr->broadcast("ep", Data{ uint8_t(p), uint8_t(i) });
    }));
  if (prod)
    tasks.push_back(sim::spawn(sim::main_pid(), "consumer", [&] {
      while (popped.size() < size_t(prod * each))
      {
        if (tr->have())
        {
          auto b = tr->pop();
          if (b.first != "ep" || b.second.size() != 2)
            vio({ "C23" }, "the broadcast queue returned something that was never put in");
          popped.emplace_back(b.second[0], b.second[1]);
        }
        else
          sim::sleep_ns(1000);
      }
    }));
  for (auto& t : tasks)
    t.join();
  sim::Quiet q;
  std::map<int, int> next;
  for (auto& p : popped)
    if (next[p.first]++ != p.second)
      vio({ "C23", "C03" }, "the broadcast queue lost, repeated or reordered an entry");
  Lin l(hist);
  std::map<int, int> st;
  if (!l.go(0, st))
    vio({ "C23" }, "no atomic order explains what the %s returned:%s", table ? "endpoint table" : "registry", show(hist).c_str());
  else
    sim::probe("linearizable-history");
}

#include "singletons.inc"
