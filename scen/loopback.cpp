// Scenario for the in-process transport (C08).
#include <scalopus_interface/transport.h>
#include <scalopus_interface/transport_factory.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <mutex>
#include <set>
#include <thread>
#include "common.h"
using namespace scalopus;

namespace
{
struct LClient
{
  Transport::Ptr t;                 // dropped at some moment
  std::vector<int> got;             // broadcasts in order of arrival
  uint64_t since = 0, gone = ~0ULL; // stamps
  int server = 0;
  bool has_only = false;
};
struct LB
{
  int server;
  uint64_t inv, ret = 0;
  Bytes data;
  bool only = false;
};
struct LWorld
{
  uint64_t stamp = 0;
  std::map<Bytes, int> sent;                  // requests not yet handled
  std::map<Bytes, std::vector<Bytes>> made;   // responses not yet consumed
  std::map<Bytes, int> sendback;              // data returned by unsolicited handlers, not yet seen by the server
  std::vector<LB> bc;
  std::vector<LClient*> clients;
  std::vector<Transport::Ptr> servers;
  std::vector<std::weak_ptr<Transport>> wclients;
  std::mutex wmutex;
  uint64_t serial = 0;
  std::weak_ptr<TransportLoopbackFactory> factory;
  Transport::Ptr doomed;
};
LWorld* L;

// injected time jumps may cut waits short while the worker did not even run: only a request that stays open for many waits is stuck
bool settled(const Transport::PendingResponse& f)
{
  for (int i = 0; i < 400; i++)
    if (f->wait_for(std::chrono::milliseconds(100)) == std::future_status::ready)
      return true;
  return false;
}
Bytes pay(uint64_t id, uint8_t mode)
{
  Bytes b(16);
  memcpy(&b[0], &id, 8);
  b[8] = mode;
  return b;
}
// mode: 0 answer, 1 no answer, 2 slow, 3 throws, 4 uses transports
class LServerEP : public Endpoint
{
public:
  int index;
  explicit LServerEP(int i) : index(i) {}
  std::string getName() const override { return "ep"; }
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    uint8_t mode = 0;
    Bytes resp;
    bool back = false;
    {
      sim::Quiet q;
      auto sb = L->sendback.find(in);
      if (sb != L->sendback.end())
      {
        if (--sb->second == 0)
          L->sendback.erase(sb);
        back = true;
        sim::probe("send-back");
      }
      else
      {
        auto it = L->sent.find(in);
        if (it == L->sent.end())
          vio({ "C08" }, "the server's endpoint was called with %s, which nobody sent or which was handled before", hex(in).c_str());
        else if (--it->second == 0)
          L->sent.erase(it);
        mode = in[8];
        if (mode % 8 != 1 && mode % 8 != 3)
        {
          resp = pay(0xA000000000000000ULL + ++L->serial, 0);
          L->made[in].push_back(resp);
        }
      }
    }
    if (back)
      return in[9] == 1;  // sometimes answers, which has no recipient
    switch (mode)
    {
      case 1: return false;
      case 2: sim::sleep_ms(15); break;
      case 3: throw std::runtime_error("handler failed");
      case 4:
      {
        (void)t.pendingRequests();
        (void)t.endpoints();
        t.broadcast("none", Bytes{ 1 });
        std::shared_ptr<Transport> c;
        {
          std::lock_guard<std::mutex> lock(L->wmutex);
          c = L->wclients[0].lock();
        }
        if (c)
        {
          (void)c->pendingRequests();
          auto f = c->request("nosuch", Bytes{ 1 });
        }
        sim::probe("reentrant-handler");
        break;
      }
    }
    if (mode == 5)
    {
      // gives up the last reference to the client whose request this is
      Transport::Ptr gone;
      {
        sim::Quiet q;
        gone.swap(L->doomed);
      }
      sim::probe("handler-drops-client");
      gone.reset();
    }
    out = resp;
    return true;
  }
  bool unsolicited(Transport&, const Data&, Data&) override
  {
    vio({ "C08" }, "server endpoint received unsolicited data");
    return false;
  }
};
class LClientEP : public Endpoint
{
public:
  LClient* c;
  std::string name;
  LClientEP(LClient* cl, std::string n) : c(cl), name(std::move(n)) {}
  std::string getName() const override { return name; }
  bool handle(Transport&, const Data&, Data&) override
  {
    vio({ "C08" }, "client endpoint received a request");
    return false;
  }
  bool unsolicited(Transport& t, const Data& in, Data& out) override
  {
    bool reply = false, thrower = false;
    {
      sim::Quiet q;
      int hit = -1;
      for (size_t i = 0; i < L->bc.size(); i++)
        if (L->bc[i].data == in && L->bc[i].server == c->server)
        {
          hit = int(i);
          if (std::find(c->got.begin(), c->got.end(), hit) == c->got.end())
            break;
        }
      if (hit < 0)
        vio({ "C08" }, "a client received %s, which its server did not broadcast", hex(in).c_str());
      else
      {
        if (L->bc[size_t(hit)].only != (name == "only_client"))
          vio({ "C08" }, "a broadcast was delivered to another endpoint than the one it is for");
        if (std::find(c->got.begin(), c->got.end(), hit) != c->got.end())
          vio({ "C08" }, "a client received broadcast %d twice", hit);
        for (int g : c->got)
          if (L->bc[size_t(hit)].ret && L->bc[size_t(hit)].ret < L->bc[size_t(g)].inv)
            vio({ "C08" }, "broadcast %d was delivered after broadcast %d, which was issued later", hit, g);
        c->got.push_back(hit);
        sim::probe("broadcast-delivered");
      }
      thrower = in[8] == 3;
      if (in[8] == 5 || in[8] == 6)
      {
        reply = true;
        out = pay(0xC000000000000000ULL + ++L->serial, 0);
        out[9] = in[8] == 6;
        if (name == "ep")
          L->sendback[out]++;
      }
    }
    (void)t.pendingRequests();
    if (in[8] == 4)
    {
      (void)t.endpoints();
      (void)t.isConnected();
      auto f = t.request("nosuch", Bytes{ 2 });
      t.broadcast("none", Bytes{ 3 });
      t.addEndpoint(std::make_shared<LClientEP>(c, "added"));
      if (sim::flip(1, 2))
      {
        auto factory = L->factory.lock();
        auto servers = factory ? factory->discover() : std::vector<Destination::Ptr>{};
        for (auto& d : servers)
        {
          auto other = factory->connect(d);
          if (other)
            auto g = other->request("nosuch", Bytes{ 4 });
        }
      }
      sim::probe("reentrant-unsolicited");
    }
    if (thrower)
      throw std::runtime_error("unsolicited handler failed");
    return reply;
  }
};
}  // namespace

SCENARIO(loopback)
{
  L = new LWorld;
  sim::enable(sim::F_TIMEJUMP, 30);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 100);
  sim::enable(sim::F_SPURIOUS, 50);
  auto factory = std::make_shared<TransportLoopbackFactory>();
  L->factory = factory;
  int nserv = int(sim::range(1, 2)), ncl = int(sim::range(1, 3)), nth = int(sim::range(1, 2)), nops = int(sim::range(1, 6));
  for (int i = 0; i < nserv; i++)
  {
    auto s = factory->serve();
    s->addEndpoint(std::make_shared<LServerEP>(i));
    L->servers.push_back(s);
  }
  const bool drop_server_early = sim::flip(1, 3);
  std::vector<sim::Task> tasks;
  std::vector<LClient*> cl;
  for (int i = 0; i < ncl; i++)
  {
    auto c = new LClient;
    c->server = int(sim::choose(uint64_t(nserv)));
    c->has_only = sim::flip(1, 2);
    cl.push_back(c);
    L->wclients.emplace_back();
  }
  std::vector<sim::Task> users;
  for (int i = 0; i < ncl; i++)
  {
    LClient* c = cl[size_t(i)];
    users.push_back(sim::spawn(sim::main_pid(), "user", [&, c, i] {
      sim::sleep_ns(sim::range(0, 15) * MS);
      if (sim::flip(1, 2))
        (void)factory->discover();
      // connecting to the server's own address, or to one found by discovery
      c->t = factory->connect(L->servers[size_t(c->server)]->getAddress());
      if (!c->t)
      {
        vio({ "C08" }, "could not connect to a live server");
        return;
      }
      if (!c->t->isConnected())
        vio({ "C08" }, "a connected client says it is not");
      c->t->addEndpoint(std::make_shared<LClientEP>(c, "ep"));
      if (c->has_only)
        c->t->addEndpoint(std::make_shared<LClientEP>(c, "only_client"));
      {
        std::lock_guard<std::mutex> lock(L->wmutex);
        L->wclients[size_t(i)] = c->t;
      }
      {
        sim::Quiet q;
        c->since = ++L->stamp;
        L->clients.push_back(c);
      }
      std::vector<sim::Task> ths;
      for (int k = 0; k < nth; k++)
        ths.push_back(sim::spawn(sim::main_pid(), "thread", [c, i, k, nops] {
          auto t = c->t;
          for (int o = 0; o < nops; o++)
          {
            uint64_t id = uint64_t(i * 10 + k) * 1000 + uint64_t(o);
            switch (sim::choose(4))
            {
              case 0:
              case 1:
              {
                uint8_t mode = uint8_t(sim::choose(5));
                Bytes d = pay(id, mode);
                {
                  sim::Quiet q;
                  L->sent[d]++;
                }
                sim::ev("request");
                auto f = t->request("ep", d);
                for (int k2 = int(sim::choose(4)); k2 > 0; k2--)
                {
                  const size_t pending = t->pendingRequests();
                  if (pending == 0 && !ready(f))
                    vio({ "C08", "C04" }, "a request is still awaited and the number of pending requests is zero");
                  sim::sleep_ns(sim::range(0, 6) * MS);
                }
                if (!settled(f))
                {
                  vio({ "C08" }, "a request to a live server was not completed within 20 s (mode %d)", mode);
                  break;
                }
                try
                {
                  Bytes v = f->get();
                  sim::Quiet q;
                  auto& m = L->made[d];
                  auto it = std::find(m.begin(), m.end(), v);
                  if (it == m.end())
                    vio({ "C08" }, "a request completed with data its endpoint did not return for it");
                  else
                    m.erase(it);
                  sim::probe("request-completed");
                }
                catch (const std::exception& e)
                {
                  if (mode != 1 && mode != 3)
                    vio({ "C08" }, "a request failed although its endpoint answered: %s", e.what());
                  sim::probe("request-failed");
                }
                break;
              }
              case 2:  // no such endpoint
              {
                auto f = t->request("nosuch", Bytes{ 1, 2 });
                if (!settled(f))
                {
                  vio({ "C08" }, "a request to an endpoint that does not exist neither fails nor completes");
                  break;
                }
                try
                {
                  f->get();
                  vio({ "C08" }, "a request to an endpoint that does not exist succeeded");
                }
                catch (const std::exception&)
                {
                  sim::probe("nosuch-failed");
                }
                break;
              }
              case 3:  // dropped
              {
                Bytes d = pay(id, 0);
                {
                  sim::Quiet q;
                  L->sent[d]++;
                }
                auto f = t->request("ep", d);
                sim::sleep_ns(sim::range(0, 15) * MS);
                f.reset();
                sim::probe("request-dropped");
                break;
              }
            }
          }
        }));
      for (auto& t : ths)
        t.join();
      bool leave;
      {
        sim::Quiet q;
        leave = sim::flip(1, 2);
        if (leave)
          c->gone = ++L->stamp;
      }
      if (leave)
      {
        // a request in flight while it disappears
        Bytes d = pay(5000000 + uint64_t(i), 2);
        {
          sim::Quiet q;
          L->sent[d]++;
        }
        auto f = c->t->request("ep", d);
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(0, 20) * MS);
        sim::Deadline dl("C08", "destroying a client", 30 * SEC);
        c->t.reset();
        // with the transport possibly still used by its server for a moment, the future has to become ready
        if (!settled(f))
          vio({ "C08" }, "the future of a destroyed client never becomes ready");
        sim::probe("client-left");
      }
    }));
  }
  int nb = int(sim::range(0, 2)), per = int(sim::range(1, 5));
  for (int b = 0; b < nb; b++)
    users.push_back(sim::spawn(sim::main_pid(), "bcast", [&, b] {
      int s = int(sim::choose(uint64_t(nserv)));
      auto srv = L->servers[size_t(s)];
      for (int k = 0; k < per; k++)
      {
        sim::sleep_ns(sim::range(0, 15) * MS);
        size_t bi;
        bool only;
        Bytes d = pay(0xB000000000000000ULL + uint64_t(b * 1000 + k), uint8_t(sim::choose(7)));
        {
          sim::Quiet q;
          bi = L->bc.size();
          LB r;
          r.server = s;
          r.data = d;
          r.inv = ++L->stamp;
          r.only = sim::flip(1, 4);
          only = r.only;
          L->bc.push_back(r);
        }
        srv->broadcast(only ? "only_client" : "ep", d);
        sim::Quiet q;
        L->bc[bi].ret = ++L->stamp;
      }
      sim::ev("broadcasts");
    }));
  if (sim::flip(1, 3))  // requests on the server side have nobody to go to
    users.push_back(sim::spawn(sim::main_pid(), "srvreq", [&] {
      auto f = L->servers[0]->request("ep", pay(7777777, 0));
      if (settled(f))
        try
        {
          f->get();
          vio({ "C08" }, "a request on a server transport succeeded");
        }
        catch (const std::exception&)
        {
        }
      else
        vio({ "C08" }, "a request on a server transport neither fails nor completes");
    }));
  if (sim::flip(1, 2))
    users.push_back(sim::spawn(sim::main_pid(), "disco", [&] {
      std::vector<Transport::Ptr> extra;
      for (int k = 0; k < 5; k++)
      {
        auto l = factory->discover();
        std::set<size_t> distinct;
        for (auto& d : l)
        {
          (void)std::string(*d);
          distinct.insert(d->hash_code());
        }
        // (a server that went away just now may still be listed)
        if (l.size() < size_t(nserv) + extra.size() || distinct.size() < size_t(nserv) + extra.size())
          vio({ "C08", "C09" }, "discovery lists %zu servers where %zu are live", l.size(), size_t(nserv) + extra.size());
        if (!extra.empty() && sim::flip(1, 2))
          extra.erase(extra.begin() + long(sim::choose(extra.size())));
        for (uint64_t n = sim::choose(3); n > 0; n--)
          extra.push_back(factory->serve());
        sim::sleep_ns(sim::range(0, 5) * MS);
      }
    }));
  for (auto& t : users)
    t.join();
  sim::faults_off();
  // the same data several times in a row are several broadcasts
  for (uint64_t k = sim::choose(4); k > 0; k--)
  {
    LB r;
    r.server = 0;
    r.data = pay(0xE000000000000000ULL, 0);
    {
      sim::Quiet q;
      r.inv = r.ret = ++L->stamp;
      L->bc.push_back(r);
    }
    L->servers[0]->broadcast("ep", r.data);
  }
  sim::wait_until(
      [&] {
        for (auto c : L->clients)
          if (c->gone == ~0ULL)
            for (size_t i = 0; i < L->bc.size(); i++)
              if (L->bc[i].server == c->server && L->bc[i].inv > c->since && (c->has_only || !L->bc[i].only) && std::find(c->got.begin(), c->got.end(), int(i)) == c->got.end())
                return false;
        return true;
      },
      10 * SEC);
  {
    sim::Quiet q;
    for (auto c : L->clients)
      if (c->gone == ~0ULL)
        for (size_t i = 0; i < L->bc.size(); i++)
          if (L->bc[i].server == c->server && L->bc[i].inv > c->since && (c->has_only || !L->bc[i].only) && std::find(c->got.begin(), c->got.end(), int(i)) == c->got.end())
            vio({ "C08" }, "broadcast %zu never reached a connected client", i);
  }
  sim::sleep_ms(300);
  for (auto c : cl)
    if (c->t)
    {
      size_t n = c->t->pendingRequests();
      if (n)
        vio({ "C08" }, "%zu requests are pending although all were completed or dropped", n);
    }
  {
    sim::Quiet q;
    if (!L->sendback.empty())
      vio({ "C08", "C10" }, "data returned by an unsolicited handler did not reach the server's endpoint of that name");
  }
  // a handler that gives up the last reference to the client it is serving
  if (sim::flip(1, 3))
  {
    sim::Deadline dd("C08", "a handler that drops the client it serves", 60 * SEC);
    Bytes d = pay(0xF000000000000000ULL, 5);
    Transport::PendingResponse f;
    {
      auto t = factory->connect(L->servers[0]->getAddress());
      {
        sim::Quiet q;
        L->sent[d]++;
        L->doomed = t;
      }
      f = t->request("ep", d);
      if (sim::flip(1, 2))
        auto g = t->request("ep2", d);
      t.reset();
    }
    if (!settled(f))
      vio({ "C08" }, "a request of a client that was destroyed by the handler never becomes ready");
    else
      try
      {
        f->get();
      }
      catch (const std::exception&)
      {
      }
  }
  const auto late = L->servers[0]->getAddress();
  // tear down while broadcasts are delivered, in any order, from several threads
  sim::Deadline dl("C08", "destroying clients and servers", 60 * SEC);
  for (int s = 0; s < nserv; s++)
    for (int k = 0; k < 2; k++)
    {
      LB r;
      r.server = s;
      r.data = pay(0xD000000000000000ULL + uint64_t(s * 10 + k), 0);
      {
        sim::Quiet q;
        r.inv = ++L->stamp;
        L->bc.push_back(r);
      }
      L->servers[size_t(s)]->broadcast("ep", r.data);
    }
  std::vector<sim::Task> ends;
  if (!drop_server_early)
    ends.push_back(sim::spawn(sim::main_pid(), "end_s", [&] {
      sim::sleep_ns(sim::range(0, 12) * MS);
      for (auto& s : L->servers)
        s.reset();
    }));
  else
    for (auto& s : L->servers)
      s.reset();
  for (auto c : cl)
    ends.push_back(sim::spawn(sim::main_pid(), "end_c", [c] {
      sim::sleep_ns(sim::range(0, 12) * MS);
      c->t.reset();
    }));
  for (auto& t : ends)
    t.join();
  // a server whose last user was its own worker may finish a little later
  if (!sim::wait_until([&] { return sim::live_threads(sim::main_pid()) <= 1; }, 20 * SEC))
    vio({ "C08" }, "a worker thread is still running after everything was destroyed");
  {
    auto l = factory->discover();
    if (!l.empty())
      vio({ "C08", "C09" }, "discovery lists %zu servers although all were destroyed", l.size());
    if (late && factory->connect(late))
      vio({ "C08" }, "connecting to a server that no longer exists gave a transport");
  }
  factory.reset();
}

namespace
{
class MEP : public Endpoint
{
public:
  std::string name;
  int* hits;
  MEP(std::string n, int* h) : name(std::move(n)), hits(h) {}
  std::string getName() const override { return name; }
  bool unsolicited(Transport&, const Data&, Data&) override
  {
    sim::Quiet q;
    if (hits)
      ++*hits;
    return false;
  }
};
}  // namespace

// the polling manager on top of the in-process transport
SCENARIO(loop_manager)
{
  sim::enable(sim::F_TIMEJUMP, 20);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 100);
  struct S
  {
    std::set<std::string> eps;
    Transport::Ptr t;
  };
  auto factory = std::make_shared<TransportLoopbackFactory>();
  auto srv = new std::vector<S>;
  auto hits = new std::map<std::string, int>;
  const std::set<std::string> known{ "a", "b", "s0", "s1", "s2" };
  auto mgr = std::make_shared<EndpointManagerPoll>(factory);
  for (auto& n : known)
  {
    int* h = &(*hits)[n];
    mgr->addEndpointFactory(n, [n, h](const Transport::Ptr& t) {
      auto e = std::make_shared<MEP>(n, h);
      e->setTransport(t);
      return e;
    });
  }
  const double interval = double(sim::range(20, 300)) / 1000.0;
  const bool polled = sim::flip(3, 4);
  const int n = int(sim::range(1, 3));
  auto add = [&](S& s, const std::string& name) {
    s.t->addEndpoint(std::make_shared<MEP>(name, nullptr));
    sim::Quiet q;
    s.eps.insert(name);
  };
  srv->resize(size_t(n));
  // some servers are gone before anyone looks
  for (uint64_t k = sim::choose(3); k > 0; k--)
    (void)factory->serve();
  if (polled)
    mgr->startPolling(interval);
  std::vector<sim::Task> ts;
  for (int i = 0; i < n; i++)
    ts.push_back(sim::spawn(sim::main_pid(), "server", [&, i] {
      sim::sleep_ns(sim::range(0, 400) * MS);
      auto t = factory->serve();
      {
        sim::Quiet q;
        (*srv)[size_t(i)].t = t;
      }
      S& s = (*srv)[size_t(i)];
      if (sim::flip(1, 2))
        sim::sleep_ns(sim::range(0, 300) * MS);
      t->addEndpoint(std::make_shared<EndpointIntrospect>());
      add(s, "s" + std::to_string(i));
      if (sim::flip(1, 2))
        add(s, "unknown");
      sim::sleep_ns(sim::range(0, 300) * MS);
      if (sim::flip(1, 2))
        add(s, "a");
      if (sim::flip(1, 2))
        add(s, "b");
    }));
  ts.push_back(sim::spawn(sim::main_pid(), "asker", [&] {
    for (int k = 0; k < 5; k++)
    {
      (void)mgr->endpoints();
      if (!polled)
        mgr->manage();
      sim::sleep_ns(sim::range(0, 200) * MS);
    }
  }));
  for (auto& t : ts)
    t.join();
  sim::faults_off();
  std::multiset<std::set<std::string>> want, got;
  {
    sim::Quiet q;
    for (auto& s : *srv)
    {
      std::set<std::string> w{ EndpointIntrospect::name };
      for (auto& e : s.eps)
        if (known.count(e))
          w.insert(e);
      want.insert(w);
    }
  }
  const int64_t end = sim::now() + int64_t((interval + 1.0) * 12 * 1e9) + 5 * SEC;
  do
  {
    if (!polled)
      mgr->manage();
    sim::sleep_ms(100);
    got.clear();
    for (auto& t : mgr->endpoints())
    {
      std::set<std::string> g;
      for (auto& e : t.second)
        g.insert(e.first);
      if (!g.empty())  // servers that went away at once
        got.insert(g);
    }
  } while (got != want && sim::now() < end);
  if (got != want)
    vio({ "C09", "C08" }, "a manager on the in-process transport exposes %zu transports with endpoints for %zu servers, or wrong endpoints", got.size(), want.size());
  else
  {
    sim::probe("converged");
    auto& s0 = (*srv)[0];
    for (auto& name : s0.eps)
    {
      if (!known.count(name))
        continue;
      const int before = [&] { sim::Quiet q; return (*hits)[name]; }();
      s0.t->broadcast(name, Bytes{ 1, 2, 3 });
      if (!sim::wait_until([&] { return (*hits)[name] > before; }, 5 * SEC))
        vio({ "C09", "C08" }, "a broadcast does not reach the endpoint the manager made");
      sim::sleep_ms(100);
      sim::Quiet q;
      if ((*hits)[name] != before + 1)
        vio({ "C09", "C08" }, "a broadcast reached the endpoint the manager made %d times", (*hits)[name] - before);
    }
  }
  sim::Deadline dl("C09", "shutting down a manager on the in-process transport", 60 * SEC);
  const bool first = sim::flip(1, 2);
  if (first)
    mgr.reset();
  for (auto& s : *srv)
    s.t.reset();
  mgr.reset();
  if (!sim::wait_until([&] { return sim::live_threads(sim::main_pid()) <= 1; }, 20 * SEC))
    vio({ "C09", "C08" }, "a worker thread is still running after everything was destroyed");
}
