// Scenarios for the Unix socket transport (C01-C07, C10, parts of C23).
#include <poll.h>
#include <scalopus_interface/exceptions.h>
#include <scalopus_interface/transport.h>
#include <scalopus_interface/transport_factory.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <signal.h>
#include <unistd.h>
#include "common.h"
using namespace scalopus;

namespace
{
// some processes are started without stdin, so the first descriptor they open is number 0
int new_proc(const char* name)
{
  const int pid = sim::new_proc(name);
  if (sim::flip(1, 12))
    sim::stdin_closed(pid);
  return pid;
}
// a program that the current process starts and that runs for longer than the process does
void start_program()
{
  sim::set_exec_handler([](const std::string&, const std::vector<std::string>&) {
    for (;;)
      poll(nullptr, 0, -1);  // runs until the end of the run
  });
  sim::ev("start a program");
  if (fork() == 0)
  {
    char name[] = "program";
    char* argv[] = { name, nullptr };
    execvp(name, argv);
    _exit(127);
  }
}

// ---- the reference model -----------------------------------------------------------------------------------------------
struct BRec
{
  std::string ep;
  Bytes data;
  uint64_t inv, ret;  // stamps
  int server;
};
struct CRec
{
  int pid;
  int server = 0;
  bool sure = false;         // a round trip has completed: the server knows this connection
  uint64_t sure_at = 0;
  uint64_t gone_at = ~0ULL;  // stamp at which it started to disconnect
  bool exists = true;
  std::vector<int> got;      // broadcast indices in order of arrival
  std::set<std::string> eps; // names that have an unsolicited handler here
  std::map<std::string, uint64_t> ep_at;
};
struct Model
{
  using Key = std::pair<std::string, Bytes>;
  std::map<Key, int> sent;                      // requests issued, not yet seen by a handler
  std::map<Key, int> sent_total;
  std::map<Key, std::vector<Bytes>> produced;   // responses produced, not yet consumed
  std::vector<BRec> bc;
  std::map<Bytes, std::vector<int>> bc_by_data;
  std::map<const void*, int> client_of;         // transport -> client index
  std::vector<CRec> clients;
  uint64_t stamp = 0;
  uint64_t serial = 0;
  int completed = 0, handled = 0;
  bool relaxed = false;  // peers may die
};
Model* M;
uint64_t stamp() { return ++M->stamp; }

Bytes make_payload(uint64_t id, size_t n)
{
  Bytes b(n);
  Rand r{ id * 7919 + n };
  for (size_t i = 0; i < n; i++)
    b[i] = uint8_t(r.next());
  if (n >= 8)
    memcpy(&b[0], &id, 8);
  return b;
}
size_t pick_size()
{
  static const size_t sizes[] = { 16, 8, 0, 1, 7, 64, 300, 4095, 4096, 4097, 8192, 9000, 12288, 30000 };
  static const size_t large[] = { 65535, 65536, 70000, 131077 };
  if (sim::flip(1, 40))
    return large[sim::choose(4)];
  return sizes[sim::choose(14)];
}

// payload byte 8 (when present) steers the handler: 0..99 answer, 100..119 no answer, 120..139 slow answer
enum Mode
{
  ANSWER,
  NO_ANSWER,
  SLOW,
  THROWS,  // like no answer
  BRIEF    // takes a moment
};
Mode mode_of(const Bytes& d)
{
  if (d.size() < 9)
    return ANSWER;
  return d[8] == 1 ? NO_ANSWER : d[8] == 2 ? SLOW : d[8] == 3 ? THROWS : d[8] == 4 ? BRIEF : ANSWER;
}

class ServerEP : public Endpoint
{
public:
  explicit ServerEP(std::string n) : name_(std::move(n)) {}
  std::string getName() const override { return name_; }
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    (void)t;
    Mode m;
    Bytes resp;
    {
      sim::Quiet q;
      m = mode_of(in);
      Model::Key k{ name_, in };
      auto it = M->sent.find(k);
      if (it == M->sent.end())
      {
        bool ever = M->sent_total.count(k);
        vio({ "C01", "C05", "C03" }, "handler of '%s' was called with %s, which %s", name_.substr(0, 20).c_str(), hex(in).c_str(),
            ever ? "had been handled before (a request was delivered twice)" : "no client sent to this endpoint");
      }
      else if (--it->second == 0)
        M->sent.erase(it);
      M->handled++;
      uint64_t ser = ++M->serial;
      size_t n = size_t((ser * 7 + in.size()) % 5 == 0 ? 0 : (in.size() * 3) % 9000);
      if (in.size() == 4096)
        n = 4096;
      if (in.size() >= 65535)
        n = in.size() - 3;
      if (in.size() >= 16 && n < 8)
        n = 8;
      resp = make_payload(0xABC0000000000000ULL + ser, n);
      if (m != NO_ANSWER && m != THROWS)
        M->produced[k].push_back(resp);
      sim::probe(m == NO_ANSWER ? "handler-no-answer" : m == SLOW ? "handler-slow" : "handler-answer");
    }
    if (m == SLOW)
      sim::sleep_ms(35);
    if (m == BRIEF)
      sim::sleep_ms(3);
    if (m == THROWS)
      switch (in.size() % 4)
      {
        case 0: throw std::runtime_error("handler failed");
        case 1: throw std::string("handler failed");
        case 2: throw std::out_of_range("handler failed");
        default: throw 17;
      }
    out = resp;
    return m != NO_ANSWER;
  }
  bool unsolicited(Transport&, const Data& in, Data&) override
  {
    vio({ "C03", "C01" }, "server endpoint received unsolicited data %s", hex(in).c_str());
    return false;
  }

private:
  std::string name_;
};

class ClientEP : public Endpoint
{
public:
  explicit ClientEP(std::string n) : name_(std::move(n)) {}
  std::string getName() const override { return name_; }
  bool handle(Transport&, const Data& in, Data&) override
  {
    vio({ "C03", "C01" }, "data %s was delivered to a client's request handler", hex(in).c_str());
    return false;
  }
  bool unsolicited(Transport& t, const Data& in, Data&) override
  {
    sim::Quiet q;
    auto c = M->client_of.find(&t);
    if (c == M->client_of.end())
      return false;
    CRec& cr = M->clients[size_t(c->second)];
    auto b = M->bc_by_data.find(in);
    if (b == M->bc_by_data.end())
    {
      vio({ "C03", "C04", "C05", "C01" }, "client received unsolicited %s for endpoint '%s', which nobody broadcast (a late or partial message?)",
          hex(in).c_str(), name_.substr(0, 20).c_str());
      return false;
    }
    // the same data may be broadcast several times in a row
    int hit = -1;
    for (int i : b->second)
      if (hit < 0 || (std::find(cr.got.begin(), cr.got.end(), hit) != cr.got.end()) || M->bc[size_t(hit)].ep != name_)
        hit = i;
    const BRec& br = M->bc[size_t(hit)];
    if (br.ep != name_)
      vio({ "C03" }, "broadcast %d for endpoint '%s' was delivered to endpoint '%s'", hit, br.ep.substr(0, 20).c_str(), name_.substr(0, 20).c_str());
    if (br.server != cr.server)
      vio({ "C03" }, "broadcast of another server was delivered");
    for (int g : cr.got)
    {
      if (g == hit)
        vio({ "C03" }, "broadcast %d was delivered twice to client %d", g, c->second);
      if (br.ret && br.ret < M->bc[size_t(g)].inv)
        vio({ "C03" }, "client %d received broadcast %d after broadcast %d, which was issued later", c->second, hit, g);
    }
    cr.got.push_back(hit);
    sim::probe("broadcast-delivered");
    return false;
  }

private:
  std::string name_;
};

const char* const NAMES[] = { "ep", "e", "ep1", "introspect2", "" };
std::string ep_name(uint64_t i)
{
  if (i == 4)
    return std::string(300, 'n');
  return NAMES[i];
}

struct Pending
{
  Transport::PendingResponse f;
  Model::Key key;
  Mode mode;
};

// A completed request: does the value belong to it?
void consume(const Pending& p, const Bytes& v)
{
  sim::Quiet q;
  auto it = M->produced.find(p.key);
  bool ok = false;
  if (it != M->produced.end())
  {
    auto f = std::find(it->second.begin(), it->second.end(), v);
    if (f != it->second.end())
    {
      it->second.erase(f);
      ok = true;
    }
  }
  if (!ok)
    vio({ "C01", "C05", "C03", "C04" }, "request %s to '%s' completed with %s, which its endpoint did not return for it", hex(p.key.second).c_str(),
        p.key.first.substr(0, 20).c_str(), hex(v).c_str());
  M->completed++;
  sim::probe("request-completed");
}

Pending issue(const Transport::Ptr& t, int client, uint64_t id, bool want_answer)
{
  Pending p;
  {
    sim::Quiet q;
    size_t n = pick_size();
    Bytes d = make_payload(id, n);
    p.mode = ANSWER;
    if (n >= 9)
    {
      d[8] = 0;
      if (!want_answer && sim::flip(1, 2))
        d[8] = sim::flip(1, 4) ? 3 : 1;
      else if (sim::flip(1, 5))
        d[8] = 2;
      p.mode = mode_of(d);
    }
    p.key = { ep_name(sim::choose(5)), d };
    M->sent[p.key]++;
    M->sent_total[p.key]++;
    (void)client;
  }
  sim::ev("request");
  p.f = t->request(p.key.first, p.key.second);
  return p;
}

Pending issue_mode(const Transport::Ptr& t, uint64_t id, size_t n, Mode mode)
{
  Pending p;
  {
    sim::Quiet q;
    p.mode = mode;
    Bytes d = make_payload(id, n);
    d[8] = uint8_t(mode);
    p.key = { "ep", d };
    M->sent[p.key]++;
    M->sent_total[p.key]++;
  }
  sim::ev("request");
  p.f = t->request(p.key.first, p.key.second);
  return p;
}

// Wait for a request that must be answered; returns true if it completed with a value.
bool finish_request(Pending& p, int64_t bound, bool must, const char* prop)
{
  sim::Deadline d(prop, "waiting with a timeout for a pending request", bound * 4 + 20 * SEC);
  if (p.f->wait_for(std::chrono::nanoseconds(bound)) != std::future_status::ready)
  {
    if (must)
    {
      sim::Quiet q;
      vio({ prop, prop[2] == '5' ? "C02" : prop }, "request %s to '%s' was not answered within %lld ms although both peers are alive", hex(p.key.second).c_str(),
          p.key.first.substr(0, 20).c_str(), (long long)(bound / MS));
    }
    return false;
  }
  Bytes v;
  try
  {
    v = p.f->get();
  }
  catch (const std::exception& e)
  {
    if (must || !M->relaxed)
      vio({ prop, prop[2] == '5' ? "C02" : prop }, "request failed with '%s' although both peers are alive and connected", e.what());
    return false;
  }
  consume(p, v);
  return true;
}

void kernel_faults()
{
  sim::enable(sim::F_EINTR_SELECT, 40);
  sim::enable(sim::F_EINTR_READ, 60);
  sim::enable(sim::F_EINTR_SEND, 60);
  sim::enable(sim::F_EINTR_ACCEPT, 100);
  sim::enable(sim::F_SHORT_READ, 100);
  sim::enable(sim::F_SHORT_SEND, 100);
  sim::enable(sim::F_FRAG_SEND, 150);
  sim::enable(sim::F_SPURIOUS, 50);
  sim::enable(sim::F_TIMEJUMP, 30);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 100);
  sim::enable(sim::F_CLOCKJUMP, 5);
}

struct Server
{
  int pid;
  Transport::Ptr t;
};
Server start_server(const char* name, bool expect = true)
{
  Server s;
  s.pid = new_proc(name);
  sim::run_as(s.pid, [&] {
    TransportUnixFactory f;
    s.t = f.serve();
    if (!s.t)
    {
      if (expect)
        vio({ "C02", "C06" }, "serve() failed although no system call did");
      return;
    }
    for (uint64_t i = 0; i < 5; i++)
      s.t->addEndpoint(std::make_shared<ServerEP>(ep_name(i)));
  });
  return s;
}
struct Client
{
  int pid;
  int idx;
  Transport::Ptr t;
};
Destination::Ptr find_dest(TransportFactory& f, int pid)
{
  char want[40];
  snprintf(want, sizeof want, "<unix:%d>", pid);
  for (auto& d : f.discover())
    if (std::string(*d) == want)
      return d;
  return nullptr;
}
Transport::Ptr do_connect(int server_pid)
{
  TransportUnixFactory f;
  auto d = find_dest(f, server_pid);
  if (!d)
    return nullptr;
  return f.connect(d);
}
void register_client(Client& c, int server_pid)
{
  // must happen before any broadcast can arrive for it: endpoints are added afterwards
  sim::Quiet q;
  c.idx = int(M->clients.size());
  CRec r;
  r.pid = c.pid;
  r.server = server_pid;
  M->clients.push_back(r);
  M->client_of[c.t.get()] = c.idx;
}
void add_client_eps(Client& c)
{
  for (uint64_t i = 0; i < 5; i++)
    if (i < 3)
    {
      c.t->addEndpoint(std::make_shared<ClientEP>(ep_name(i)));
      sim::Quiet q;
      M->clients[size_t(c.idx)].eps.insert(ep_name(i));
    }
}
void mark_sure(int idx)
{
  sim::Quiet q;
  CRec& r = M->clients[size_t(idx)];
  if (!r.sure)
  {
    r.sure = true;
    r.sure_at = stamp();
  }
}
void do_broadcast(const Transport::Ptr& t, int server_pid, uint64_t id, bool settled = false)
{
  size_t bi;
  std::string ep;
  Bytes d;
  {
    sim::Quiet q;
    size_t n = pick_size();
    if (n < 16 && !settled)
      n = 16;
    d = make_payload(0xB000000000000000ULL + id, n);
    ep = ep_name(sim::choose(4));
    if (settled && id % 1000 && sim::flip(1, 2))  // once more the same
    {
      d = M->bc.back().data;
      ep = M->bc.back().ep;
      sim::probe("broadcast-repeated");
    }
    bi = M->bc.size();
    M->bc.push_back({ ep, d, stamp(), 0, server_pid });
    M->bc_by_data[d].push_back(int(bi));
  }
  sim::ev("broadcast");
  t->broadcast(ep, d);
  {
    sim::Quiet q;
    M->bc[bi].ret = stamp();
  }
}
// broadcasts a client must have received by now
std::string missing_broadcasts(const CRec& c, int ci)
{
  for (size_t i = 0; i < M->bc.size(); i++)
  {
    const BRec& b = M->bc[i];
    if (b.server != c.server || !c.eps.count(b.ep) || !c.sure || b.inv < c.sure_at || !b.ret || c.gone_at != ~0ULL)
      continue;
    if (std::find(c.got.begin(), c.got.end(), int(i)) == c.got.end())
      return "broadcast " + std::to_string(i) + " for '" + b.ep.substr(0, 20) + "' never reached client " + std::to_string(ci);
  }
  return "";
}
}  // namespace

// ---- C01 C02 C03 C04: one server, several clients, no deaths -------------------------------------------------------------------------
SCENARIO(unix_traffic)
{
  M = new Model;
  kernel_faults();
  {
    static const size_t bufs[] = { 212992, 65536, 16384, 4096 };
    sim::set_sockbuf(bufs[sim::choose(4)]);
  }
  const bool focus_bc = sim::accepts("C03") && *sim::deciding();
  Server s = start_server("srv");
  if (!s.t)
    return;
  int nclients = int(sim::range(1, 3));
  int nthreads = int(sim::range(1, 3));
  int nops = int(sim::range(1, 6));
  std::vector<Client> clients;
  for (int i = 0; i < nclients; i++)
  {
    Client c;
    c.pid = sim::flip(1, 4) && i > 0 ? clients[0].pid : new_proc(i == 0 ? "cl0" : i == 1 ? "cl1" : "cl2");
    clients.push_back(c);
  }
  struct Shared
  {
    std::vector<std::vector<Pending>> left;
    int running = 0;
  } sh;
  sh.left.resize(size_t(nclients * nthreads));
  std::vector<sim::Task> tasks;
  for (int i = 0; i < nclients; i++)
  {
    Client* c = &clients[size_t(i)];
    tasks.push_back(sim::spawn(c->pid, "conn", [c, &s, i, nthreads, nops, &sh, &tasks] {
      sim::sleep_ns(sim::range(0, 20) * MS);
      {
        sim::Deadline d("C02", "discovery and connect", 60 * SEC);
        c->t = do_connect(s.pid);
      }
      if (!c->t)
      {
        vio({ "C02", "C09" }, "could not discover and connect to a serving process");
        return;
      }
      register_client(*c, s.pid);
      add_client_eps(*c);
      std::vector<sim::Task> ths;
      for (int k = 0; k < nthreads; k++)
      {
        int slot = i * nthreads + k;
        ths.push_back(sim::spawn(c->pid, "user", [c, slot, nops, &sh] {
          std::vector<Pending>& mine = sh.left[size_t(slot)];
          for (int o = 0; o < nops; o++)
          {
            uint64_t id = uint64_t(slot + 1) * 1000 + uint64_t(o);
            switch (sim::choose(6))
            {
              case 0:
              case 1:  // request and wait a while
              {
                Pending p = issue(c->t, c->idx, id, true);
                if (finish_request(p, 400 * MS, false, "C02"))
                  mark_sure(c->idx);
                else
                  mine.push_back(p);
                break;
              }
              case 2:  // fire several, then collect
                for (int k2 = 0; k2 < 3; k2++)
                  mine.push_back(issue(c->t, c->idx, id + uint64_t(k2 + 1) * 100, true));
                break;
              case 3:  // fire and forget
              {
                Pending p = issue(c->t, c->idx, id, false);
                if (sim::flip(1, 2))
                  sim::sleep_ns(sim::range(0, 40) * MS);
                p.f.reset();
                sim::probe("request-dropped");
                break;
              }
              case 4:  // an endpoint that does not answer, kept pending
                mine.push_back(issue(c->t, c->idx, id, false));
                break;
              case 5:
                if (sim::flip(1, 12))  // a name that does not fit the protocol
                {
                  std::string name = ep_name(sim::choose(5));
                  name.resize(name.size() + 65536, 'x');
                  auto f = c->t->request(name, make_payload(id, 24));
                  sim::probe("name-too-long");
                  if (f->wait_for(std::chrono::milliseconds(30)) == std::future_status::ready)
                    try
                    {
                      f->get();
                      vio({ "C01" }, "a request to an endpoint that does not exist was answered");
                    }
                    catch (const std::exception&)
                    {
                    }
                }
                else if (sim::flip(1, 12))  // many requests
                {
                  for (uint64_t k2 = 0; k2 < 270; k2++)
                  {
                    Pending p;
                    p.mode = ANSWER;
                    {
                      sim::Quiet q;
                      p.key = { ep_name(k2 % 2), make_payload(id * 1000 + k2 + 50000000, 8) };
                      M->sent[p.key]++;
                      M->sent_total[p.key]++;
                    }
                    p.f = c->t->request(p.key.first, p.key.second);
                    if (k2 % 3)
                      mine.push_back(p);
                    else if (finish_request(p, 400 * MS, false, "C02"))
                      mark_sure(c->idx);
                    else
                      mine.push_back(p);
                  }
                  sim::probe("many-requests");
                }
                else
                  sim::sleep_ns(sim::range(0, 30) * MS);
                break;
            }
            (void)c->t->pendingRequests();
            if (!c->t->isConnected())
              vio({ "C02" }, "client lost its connection although the server is alive");
          }
        }));
      }
      for (auto& t : ths)
        t.join();
    }));
  }
  // broadcasters on the server
  int nb = int(sim::range(focus_bc ? 1 : 0, 2));
  int per = int(sim::range(1, focus_bc ? 6 : 3));
  for (int b = 0; b < nb; b++)
    tasks.push_back(sim::spawn(s.pid, "bcast", [&s, b, per] {
      sim::sleep_ns(sim::range(0, 60) * MS);
      for (int k = 0; k < per; k++)
      {
        do_broadcast(s.t, s.pid, uint64_t(b) * 1000 + uint64_t(k));
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(0, 25) * MS);
      }
    }));
  for (auto& t : tasks)
    t.join();
  sim::faults_off();
  // now everybody is certainly connected: more broadcasts, every one of which has to arrive everywhere
  for (auto& c : clients)
  {
    Pending p;
    sim::run_as(c.pid, [&] {
      p = issue(c.t, c.idx, 900000 + uint64_t(c.idx), true);
      if (finish_request(p, 10 * SEC, true, "C02"))
        mark_sure(c.idx);
    });
  }
  int late = int(sim::range(0, 4));
  for (int k = 0; k < late; k++)
    sim::run_as(s.pid, [&] { do_broadcast(s.t, s.pid, 5000 + uint64_t(k), true); });
  // liveness of everything still pending
  size_t awaited_dead = 0;
  std::vector<size_t> alive_noanswer(clients.size(), 0);
  for (int i = 0; i < nclients; i++)
    for (int k = 0; k < nthreads; k++)
      for (auto& p : sh.left[size_t(i * nthreads + k)])
      {
        if (p.mode == NO_ANSWER || p.mode == THROWS)
        {
          if (ready(p.f))
          {
            bool value = true;
            try
            {
              p.f->get();
            }
            catch (const std::exception&)
            {
              value = false;
            }
            vio({ "C01", "C02" }, "a request that its endpoint did not answer became ready (%s)", value ? "with a value" : "with an error");
          }
          alive_noanswer[size_t(i)]++;
          awaited_dead++;
        }
        else
          sim::run_as(clients[size_t(i)].pid, [&] { finish_request(p, 10 * SEC, true, "C02"); });
      }
  {
    sim::Deadline d("C03", "waiting for broadcasts", 30 * SEC);
    bool ok = sim::wait_until(
        [&] {
          for (size_t i = 0; i < M->clients.size(); i++)
            if (!missing_broadcasts(M->clients[i], int(i)).empty())
              return false;
          return true;
        },
        10 * SEC);
    if (!ok)
    {
      sim::Quiet q;
      for (size_t i = 0; i < M->clients.size(); i++)
      {
        auto m = missing_broadcasts(M->clients[i], int(i));
        if (!m.empty())
          vio({ "C03" }, "%s", m.c_str());
      }
    }
  }
  if (awaited_dead)
    sim::probe("pending-without-answer");
  // pending counts
  for (int i = 0; i < nclients; i++)
  {
    auto& c = clients[size_t(i)];
    size_t got = 0;
    auto settle = [&](size_t want) {
      int64_t end = sim::now() + 2 * SEC;
      do
      {
        got = c.t->pendingRequests();
        if (got == want)
          return;
        sim::sleep_ms(5);
      } while (sim::now() < end);
      vio({ "C04" }, "%zu requests are pending on client %d but %zu are still awaited", got, i, want);
    };
    settle(alive_noanswer[size_t(i)]);
    if (i == 0 && sim::flip(1, *sim::deciding() && sim::accepts("C04") ? 12 : 200))
    {
      // dropped requests also vanish while there is always something to do
      sim::run_as(c.pid, [&] {
        for (int k = 0; k < 3; k++)
          issue_mode(c.t, 7000000 + uint64_t(k), 24, NO_ANSWER);
        const int64_t end = sim::now() + 2 * SEC;
        for (int k = 0; sim::now() < end && k < 2000; k++)
        {
          Pending p = issue_mode(c.t, 7100000 + uint64_t(k), 24, BRIEF);
          if (!finish_request(p, 10 * SEC, true, "C02"))
            break;
        }
        const size_t left = c.t->pendingRequests();
        if (left != alive_noanswer[size_t(i)])
          vio({ "C04" }, "%zu requests are pending but only %zu are still awaited; they were dropped 2 s ago, the connection is busy", left, alive_noanswer[size_t(i)]);
        sim::probe("dropped-while-busy");
      });
    }
    if (i == 0 && sim::flip(1, *sim::deciding() && sim::accepts("C01") ? 150 : 1500))
    {
      sim::run_as(c.pid, [&] {
        Pending p = issue_mode(c.t, 7200000, (1u << 24) + 11, ANSWER);
        finish_request(p, 120 * SEC, true, "C02");
        sim::probe("16MB-payload");
      });
    }
    for (int k = 0; k < nthreads; k++)
      sh.left[size_t(i * nthreads + k)].clear();
    settle(0);
    if (!c.t->isConnected())
      vio({ "C02" }, "client lost its connection although the server is alive");
  }
  if (!s.t->isConnected())
    vio({ "C02" }, "server stopped serving");
  {
    // everything that was sent has been handled (exactly once is checked in the handler)
    sim::Deadline d("C01", "waiting for handlers", 60 * SEC);
    bool ok = sim::wait_until([] { return M->sent.empty(); }, 5 * SEC);
    if (!ok)
      vio({ "C02", "C01" }, "%zu requests never reached their handler", M->sent.size());
  }
  // teardown, in either order
  sim::Deadline d("C06", "destroying transports", 60 * SEC);
  bool server_first = sim::flip(1, 2);
  if (server_first)
    sim::run_as(s.pid, [&] { s.t.reset(); });
  for (auto& c : clients)
  {
    {
      sim::Quiet q;
      M->client_of.erase(c.t.get());
    }
    sim::run_as(c.pid, [&] { c.t.reset(); });
  }
  if (!server_first)
    sim::run_as(s.pid, [&] { s.t.reset(); });
  for (auto& c : clients)
    if (sim::open_fds(c.pid))
      vio({ "C06" }, "client process leaks descriptors after its transports are gone: %s", sim::fd_summary(c.pid).c_str());
  if (sim::open_fds(s.pid))
    vio({ "C06" }, "server process leaks descriptors after its transport is gone: %s", sim::fd_summary(s.pid).c_str());
}

// ---- C05: processes die at arbitrary points, connections are cut halfway messages ------------------------------------------------------
namespace
{
// A message as it looks on the wire, for peers that are not scalopus.
Bytes wire(uint64_t id, const std::string& ep, const Bytes& data, int64_t name_len = -1, int64_t data_len = -1)
{
  Bytes b;
  auto put = [&b](uint64_t v, int n) {
    for (int i = 0; i < n; i++)
      b.push_back(uint8_t(v >> (8 * i)));
  };
  put(id, 8);
  put(uint64_t(name_len < 0 ? int64_t(ep.size()) : name_len), 2);
  b.insert(b.end(), ep.begin(), ep.end());
  put(uint64_t(data_len < 0 ? int64_t(data.size()) : data_len), 4);
  b.insert(b.end(), data.begin(), data.end());
  return b;
}
std::string sock_of(int pid) { return std::to_string(pid) + "_scalopus"; }

// The transport of a client whose server is gone: not connected, everything fails with an error.
void expect_lost(const Transport::Ptr& t, std::vector<Pending>& pending, const char* who)
{
  int64_t end = sim::now() + 5 * SEC;
  while (t->isConnected() && sim::now() < end)
    sim::sleep_ms(5);
  if (t->isConnected())
    vio({ "C05" }, "%s still reports to be connected 5 s after its server died", who);
  for (auto& p : pending)
  {
    if (p.f->wait_for(std::chrono::seconds(2)) != std::future_status::ready)
    {
      vio({ "C05" }, "request %s of %s is still pending 2 s after the death of the server was noticed", hex(p.key.second).c_str(), who);
      continue;
    }
    try
    {
      Bytes v = p.f->get();
      consume(p, v);  // an answer that was complete before the death
    }
    catch (const std::exception&)
    {
      sim::probe("request-failed");
    }
  }
  pending.clear();
  Pending p = issue(t, 0, 777777, true);
  if (p.f->wait_for(std::chrono::seconds(2)) != std::future_status::ready)
    vio({ "C05" }, "a request on a lost connection blocks");
  else
  {
    try
    {
      p.f->get();
      vio({ "C05" }, "a request to a dead server produced data");
    }
    catch (const std::exception&)
    {
      sim::probe("request-refused");
    }
  }
}
}  // namespace

SCENARIO(unix_kill)
{
  M = new Model;
  M->relaxed = true;
  kernel_faults();
  sim::enable(sim::F_FD_THEFT, 200);
  sim::enable(sim::F_FRAG_SEND, 400);
  size_t maxcut;
  {
    static const size_t bufs[] = { 212992, 65536, 4096, 1000 };
    maxcut = bufs[sim::choose(4)];
    sim::set_sockbuf(maxcut);
    maxcut = maxcut * 9 / 10;  // what fits the socket for sure; a peer that blocks in send without reading is another story
  }
  // two servers; client 0 talks to both, the others to one of them
  // (kept on the heap: what belonged to a dead process is never destroyed)
  Server* const s = new Server[2]{ start_server("srvA"), start_server("srvB") };
  if (!s[0].t || !s[1].t)
    return;
  struct Cl
  {
    int pid;
    int idx[2] = { -1, -1 };
    Transport::Ptr t[2];
    std::vector<Pending> left[2];
    bool victim = false, quits = false;
  };
  int n = int(sim::range(2, 3));
  std::vector<Cl>& cl = *new std::vector<Cl>{ size_t(n) };
  std::vector<sim::Task> tasks;
  int server_victim = sim::flip(1, 2) ? int(sim::choose(2)) : -1;
  for (int i = 0; i < n; i++)
  {
    cl[size_t(i)].pid = new_proc(i == 0 ? "cl0" : i == 1 ? "cl1" : "cl2");
    cl[size_t(i)].victim = i > 0 && sim::flip(1, 2);
    cl[size_t(i)].quits = i > 0 && !cl[size_t(i)].victim && sim::flip(1, 3);
  }
  int nops = int(sim::range(2, 6));
  for (int i = 0; i < n; i++)
  {
    Cl* c = &cl[size_t(i)];
    tasks.push_back(sim::spawn(c->pid, "user", [c, s, i, nops] {
      for (int k = 0; k < 2; k++)
      {
        if (i > 0 && k != i % 2)
          continue;
        sim::sleep_ns(sim::range(0, 15) * MS);
        c->t[k] = do_connect(s[k].pid);
        if (!c->t[k])
        {
          if (sim::alive(s[k].pid))
            vio({ "C05", "C02" }, "could not connect to a live server");
          continue;
        }
        Client r;
        r.pid = c->pid;
        r.t = c->t[k];
        register_client(r, s[k].pid);
        c->idx[k] = r.idx;
        add_client_eps(r);
      }
      for (int o = 0; o < nops; o++)
      {
        int k = int(sim::choose(2));
        if (!c->t[k])
          k = 1 - k;
        if (!c->t[k])
          break;
        uint64_t id = uint64_t(i + 1) * 1000 + uint64_t(o) * 10;
        switch (sim::choose(4))
        {
          case 0:
          {
            Pending p = issue(c->t[k], c->idx[k], id, true);
            if (p.f->wait_for(std::chrono::milliseconds(200)) != std::future_status::ready || !finish_request(p, 0, false, "C05"))
            {
              if (p.f->valid())
                c->left[k].push_back(p);
            }
            else
              mark_sure(c->idx[k]);
            break;
          }
          case 1:
            for (int q = 0; q < 3; q++)
              c->left[k].push_back(issue(c->t[k], c->idx[k], id + uint64_t(q), true));
            break;
          case 2: c->left[k].push_back(issue(c->t[k], c->idx[k], id, false)); break;
          case 3:
            sim::sleep_ns(sim::range(0, 30) * MS);
            if (!c->left[k].empty() && sim::flip(1, 2))  // abandon one
              c->left[k].erase(c->left[k].begin() + long(sim::choose(c->left[k].size())));
            break;
        }
      }
      if (c->quits)
        for (int k = 0; k < 2; k++)
        {
          sim::Deadline d("C06", "destroying a client", 20 * SEC);
          {
            sim::Quiet q;
            M->client_of.erase(c->t[k].get());
          }
          c->left[k].clear();
          c->t[k].reset();
        }
    }));
  }
  for (int k = 0; k < 2; k++)
    tasks.push_back(sim::spawn(s[k].pid, "bcast", [s, k] {
      int m = int(sim::range(0, 4));
      for (int q = 0; q < m; q++)
      {
        sim::sleep_ns(sim::range(0, 25) * MS);
        do_broadcast(s[k].t, s[k].pid, uint64_t(k) * 100 + uint64_t(q));
      }
    }));
  // peers that send part of a message and vanish
  int npart = int(sim::range(0, 3));
  if (npart)
  {
    int rp = new_proc("partial");
    tasks.push_back(sim::spawn(rp, "raw", [s, npart, maxcut] {
      for (int q = 0; q < npart; q++)
      {
        sim::sleep_ns(sim::range(0, 30) * MS);
        int fd = sim::raw_connect(sock_of(s[sim::choose(2)].pid));
        if (fd < 0)
          continue;
        Bytes w = wire(1 + sim::choose(5), ep_name(sim::choose(5)), make_payload(4242 + uint64_t(q), pick_size()));
        size_t cut = sim::choose(2) ? size_t(sim::choose(24)) : size_t(sim::choose(w.size()));
        if (cut >= w.size())
          cut = w.size() - 1;
        cut = std::min(cut, maxcut);
        sim::raw_send(fd, w.data(), cut);
        if (sim::flip(1, 6))
          sim::raw_urgent(fd);
        sim::fault_count(sim::F_PEER_DROP);
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(0, 3) * MS);
        sim::raw_close(fd);
      }
    }));
  }
  if (sim::flip(1, 3))
    tasks.push_back(sim::spawn(sim::flip(1, 2) ? s[sim::choose(2)].pid : cl[size_t(sim::choose(size_t(n)))].pid, "shell", [] {
      sim::sleep_ns(sim::range(0, 30) * MS);
      start_program();
    }));
  for (int i = 1; i < n; i++)
    if (cl[size_t(i)].victim)
      sim::kill_proc_after(cl[size_t(i)].pid, sim::points_of(cl[size_t(i)].pid) + uint64_t(sim::range(1, 700)));
  if (server_victim >= 0)
    sim::kill_proc_after(s[server_victim].pid, uint64_t(sim::range(1, 900)));
  for (auto& t : tasks)
    t.join();
  // whoever is to die and has not died yet dies now
  for (int i = 1; i < n; i++)
    if (cl[size_t(i)].victim)
      sim::kill_proc(cl[size_t(i)].pid);
  if (server_victim >= 0)
    sim::kill_proc(s[server_victim].pid);
  sim::faults_off();
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < n; i++)
    {
      Cl& c = cl[size_t(i)];
      if (!c.t[k] || !sim::alive(c.pid))
        continue;
      sim::run_as(c.pid, [&] {
        sim::Deadline d("C05", "using a surviving client", 60 * SEC);
        if (!sim::alive(s[k].pid))
        {
          expect_lost(c.t[k], c.left[k], i == 0 ? "client 0" : "client 1");
          return;
        }
        for (auto& p : c.left[k])
          if (p.mode != NO_ANSWER && p.mode != THROWS)
            finish_request(p, 10 * SEC, true, "C05");
        Pending p = issue(c.t[k], c.idx[k], 888000 + uint64_t(i * 2 + k), true);
        finish_request(p, 10 * SEC, true, "C05");
        if (!c.t[k]->isConnected())
          vio({ "C05", "C02" }, "a client lost its connection because another process died");
        size_t awaited = 0;
        for (auto& q : c.left[k])
          if (q.mode == NO_ANSWER || q.mode == THROWS)
            awaited++;
        const int64_t end = sim::now() + 2 * SEC;
        size_t got = c.t[k]->pendingRequests();
        while (got != awaited && sim::now() < end)
        {
          sim::sleep_ms(5);
          got = c.t[k]->pendingRequests();
        }
        if (got != awaited)
          vio({ "C04" }, "%zu requests are pending on client %d but %zu are still awaited", got, i, awaited);
        if (!sim::wait_until([&] { return missing_broadcasts(M->clients[size_t(c.idx[k])], c.idx[k]).empty(); }, 10 * SEC))
        {
          sim::Quiet q;
          vio({ "C03", "C05" }, "%s", missing_broadcasts(M->clients[size_t(c.idx[k])], c.idx[k]).c_str());
        }
        sim::probe("survivor-served");
      });
    }
  // surviving servers also serve newcomers and still broadcast
  for (int k = 0; k < 2; k++)
  {
    if (!sim::alive(s[k].pid))
      continue;
    Client c;
    c.pid = new_proc("late");
    sim::run_as(c.pid, [&] {
      sim::Deadline d("C05", "connecting to a surviving server", 60 * SEC);
      c.t = do_connect(s[k].pid);
      if (!c.t)
      {
        vio({ "C05" }, "a surviving server cannot be connected to");
        return;
      }
      register_client(c, s[k].pid);
      add_client_eps(c);
      Pending p = issue(c.t, c.idx, 999000 + uint64_t(k), true);
      if (finish_request(p, 10 * SEC, true, "C05"))
        mark_sure(c.idx);
    });
    sim::run_as(s[k].pid, [&] { do_broadcast(s[k].t, s[k].pid, 7000 + uint64_t(k)); });
    if (!sim::wait_until([&] { return missing_broadcasts(M->clients[size_t(c.idx)], c.idx).empty(); }, 10 * SEC))
      vio({ "C05", "C03" }, "a broadcast of a surviving server never arrived");
    {
      sim::Quiet q;
      M->client_of.erase(c.t.get());
    }
    sim::run_as(c.pid, [&] { c.t.reset(); });
  }
  sim::Deadline d("C06", "destroying transports", 60 * SEC);
  for (int k = 0; k < 2; k++)
    if (sim::alive(s[k].pid))
    {
      sim::run_as(s[k].pid, [&] { s[k].t.reset(); });
      if (sim::open_fds(s[k].pid))
        vio({ "C05", "C06" }, "server leaks descriptors after clients died: %s", sim::fd_summary(s[k].pid).c_str());
    }
  for (auto& c : cl)
    if (sim::alive(c.pid))
    {
      for (int k = 0; k < 2; k++)
      {
        {
          sim::Quiet q;
          M->client_of.erase(c.t[k].get());
        }
        sim::run_as(c.pid, [&] { c.t[k].reset(); });
      }
      if (sim::open_fds(c.pid))
        vio({ "C05", "C06" }, "client leaks descriptors after its server died: %s", sim::fd_summary(c.pid).c_str());
    }
}

// ---- C06: transports come and go, system calls fail ------------------------------------------------------------------------------------
SCENARIO(unix_lifecycle)
{
  M = new Model;
  M->relaxed = true;
  kernel_faults();
  sim::enable(sim::F_SOCKET_FAIL, 80);
  sim::enable(sim::F_BIND_FAIL, 80);
  sim::enable(sim::F_LISTEN_FAIL, 80);
  sim::enable(sim::F_CONNECT_FAIL, 80);
  sim::enable(sim::F_ACCEPT_FAIL, 150);
  sim::enable(sim::F_FD_THEFT, 300);
  sim::enable(sim::F_THREAD_FAIL, 60);
  int nsp = int(sim::range(1, 2));
  std::vector<int> sp, cp;
  for (int i = 0; i < nsp; i++)
    sp.push_back(new_proc(i ? "srvB" : "srvA"));
  int ncp = int(sim::range(1, 2));
  for (int i = 0; i < ncp; i++)
    cp.push_back(sim::flip(1, 3) ? sp[0] : new_proc(i ? "clB" : "clA"));
  // a process that is nearly out of descriptors, or whose next numbers are beyond what select can handle
  switch (sim::choose(5))
  {
    case 3: sim::set_fd_range(sp[0], 100, 100 + int(sim::range(1, 4))); break;
    case 4: sim::set_fd_range(sim::choose(2) ? cp[0] : sp[0], 1024 - int(sim::range(0, 3)), 1100); break;
    default: break;
  }
  int rounds = int(sim::range(1, 3));
  std::vector<sim::Task> tasks;
  for (int i = 0; i < nsp; i++)
    tasks.push_back(sim::spawn(sp[size_t(i)], "serve", [rounds, &sp, i] {
      for (int r = 0; r < rounds; r++)
      {
        TransportUnixFactory f;
        Transport::Ptr t;
        {
          sim::Deadline d("C06", "serve()", 20 * SEC);
          t = f.serve();
        }
        if (!t)
        {
          sim::probe("serve-failed");
          sim::sleep_ns(sim::range(0, 5) * MS);
          continue;
        }
        for (uint64_t e = 0; e < 5; e++)
          t->addEndpoint(std::make_shared<ServerEP>(ep_name(e)));
        if (sim::flip(1, 4))
        {
          sim::Deadline d("C06", "a second serve()", 20 * SEC);
          auto second = f.serve();  // the address is in use
          if (second)
            vio({ "C06" }, "a second serve() in the same process succeeded");
          sim::probe("address-in-use");
        }
        sim::sleep_ns(sim::range(0, 60) * MS);
        if (sim::flip(1, 2))
          do_broadcast(t, sp[size_t(i)], uint64_t(i) * 100 + uint64_t(r));
        sim::Deadline d("C06", "destroying a server", 20 * SEC);
        t.reset();
        sim::probe("server-destroyed");
        sim::sleep_ns(sim::range(0, 5) * MS);
      }
    }));
  for (int i = 0; i < ncp; i++)
    tasks.push_back(sim::spawn(cp[size_t(i)], "client", [rounds, &sp, i] {
      for (int r = 0; r < rounds * 2; r++)
      {
        int spid = sp[sim::choose(sp.size())];
        sim::sleep_ns(sim::range(0, 15) * MS);
        TransportUnixFactory f;
        auto dst = find_dest(f, spid);
        if (!dst)
          continue;
        Transport::Ptr t;
        {
          sim::Deadline d("C06", "connect()", 40 * SEC);
          t = f.connect(dst);
        }
        if (!t)
        {
          sim::probe("connect-failed");
          continue;
        }
        std::vector<Pending> pend;
        int k = int(sim::range(0, 3));
        for (int q = 0; q < k; q++)
          pend.push_back(issue(t, 0, uint64_t(i + 1) * 10000 + uint64_t(r) * 100 + uint64_t(q), false));
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(0, 30) * MS);
        {
          sim::Deadline d("C06", "destroying a client", 20 * SEC);
          t.reset();
        }
        sim::probe("client-destroyed");
        for (auto& p : pend)
        {
          if (p.f->wait_for(std::chrono::seconds(0)) != std::future_status::ready)
          {
            vio({ "C06" }, "an outstanding request of a destroyed client is not ready");
            continue;
          }
          try
          {
            Bytes v = p.f->get();
            consume(p, v);
          }
          catch (const std::exception&)
          {
            sim::probe("outstanding-failed");
          }
        }
      }
    }));
  if (sim::flip(1, 3))
    tasks.push_back(sim::spawn(sp[0], "shell", [] {
      sim::sleep_ns(sim::range(0, 60) * MS);
      start_program();
    }));
  for (auto& t : tasks)
    t.join();
  sim::faults_off();
  for (int p : sp)
  {
    if (sim::open_fds(p))
      vio({ "C06" }, "descriptors leaked: %s", sim::fd_summary(p).c_str());
    if (sim::listener_exists(sock_of(p)))
      vio({ "C06" }, "a destroyed server still listens");
    sim::set_fd_range(p, 100, 1000);
  }
  for (int p : cp)
  {
    if (sim::open_fds(p))
      vio({ "C06" }, "descriptors leaked: %s", sim::fd_summary(p).c_str());
    sim::set_fd_range(p, 100, 1000);
  }
  // and everything still works
  Server s;
  s.pid = sp[0];
  sim::run_as(s.pid, [&] {
    TransportUnixFactory f;
    s.t = f.serve();
    if (!s.t)
    {
      vio({ "C06" }, "serve() fails although the earlier server of this process is gone");
      return;
    }
    for (uint64_t e = 0; e < 5; e++)
      s.t->addEndpoint(std::make_shared<ServerEP>(ep_name(e)));
  });
  if (!s.t)
    return;
  Client c;
  c.pid = cp[0];
  sim::run_as(c.pid, [&] {
    c.t = do_connect(s.pid);
    if (!c.t)
    {
      vio({ "C06" }, "cannot connect to a new server of a process that served before");
      return;
    }
    Pending p = issue(c.t, 0, 99, true);
    finish_request(p, 10 * SEC, true, "C06");
  });
  sim::Deadline d("C06", "destroying transports", 60 * SEC);
  sim::run_as(c.pid, [&] { c.t.reset(); });
  sim::run_as(s.pid, [&] { s.t.reset(); });
  if (sim::open_fds(c.pid) || sim::open_fds(s.pid))
    vio({ "C06" }, "descriptors leaked");
}

// ---- C07: hostile peers, endpoints that throw ----------------------------------------------------------------------------------------------
namespace
{
class ThrowingEP : public Endpoint
{
public:
  std::string getName() const override { return "thrower"; }
  bool handle(Transport&, const Data& in, Data& out) override { return boom(in, out); }
  bool unsolicited(Transport&, const Data& in, Data& out) override { return boom(in, out); }

private:
  bool boom(const Data& in, Data& out)
  {
    sim::probe("handler-throws");
    out = { 1, 2, 3 };
    switch (in.empty() ? 0 : in[0] % 6)
    {
      case 0: throw std::runtime_error("endpoint failure");
      case 1: throw communication_error("endpoint failure");
      case 2: throw 42;
      case 3: (void)in.at(in.size() + 5); break;
      case 4: throw std::string("endpoint failure");
      default: break;
    }
    return true;
  }
};
// payloads for the built-in endpoints: valid ones, mutations, and noise
Bytes bson_doc(const std::vector<std::pair<std::string, Bytes>>& el)
{
  Bytes b(4);
  for (auto& e : el)
  {
    b.push_back(e.second[0]);
    b.insert(b.end(), e.first.begin(), e.first.end());
    b.push_back(0);
    b.insert(b.end(), e.second.begin() + 1, e.second.end());
  }
  b.push_back(0);
  for (int i = 0; i < 4; i++)
    b[size_t(i)] = uint8_t(b.size() >> (8 * i));
  return b;
}
Bytes bson_str(const std::string& s)
{
  Bytes b{ 2 };
  for (int i = 0; i < 4; i++)
    b.push_back(uint8_t((s.size() + 1) >> (8 * i)));
  b.insert(b.end(), s.begin(), s.end());
  b.push_back(0);
  return b;
}
Bytes bson_sub(uint8_t type, const Bytes& d)
{
  Bytes b{ type };
  b.insert(b.end(), d.begin(), d.end());
  return b;
}
Bytes any_payload()
{
  static const char* const words[] = { "info", "set", "get", "state", "name", "threads", "pid", "endpoints", "mapping", "p", "sp", "t", "" };
  std::function<Bytes(int)> val = [&](int d) -> Bytes {
    switch (sim::choose(d > 0 ? 8 : 6))
    {
      case 0: return bson_str(words[sim::choose(13)]);
      case 1: return Bytes{ 0x10, uint8_t(sim::choose(256)), 0, 0, uint8_t(sim::choose(2) ? 0xff : 0) };
      case 2: return Bytes{ 8, uint8_t(sim::choose(2)) };
      case 3: return Bytes{ 0x0a };
      case 4: return Bytes{ 0x12, 255, 255, 255, 255, 255, 255, 255, 127 };
      case 5: return Bytes{ 1, 0, 0, 0, 0, 0, 0, 0xf8, 0x7f };
      default:
      {
        std::vector<std::pair<std::string, Bytes>> el;
        int n = int(sim::choose(3));
        for (int i = 0; i < n; i++)
          el.emplace_back(words[sim::choose(13)], val(d - 1));
        return bson_sub(sim::choose(2) ? 3 : 4, bson_doc(el));
      }
    }
  };
  Bytes b;
  switch (sim::choose(8))
  {
    case 0: b = bson_doc({ { "cmd", bson_str(words[sim::choose(13)]) } }); break;
    case 1: b = bson_doc({ { "cmd", bson_str(words[sim::choose(4)]) }, { "state", val(3) } }); break;
    case 2:
      b = bson_doc({ { "cmd", bson_str("set") },
                     { "state", bson_sub(3, bson_doc({ { "p", Bytes{ 8, 1 } }, { "sp", Bytes{ 8, 0 } }, { "t", val(3) } })) } });
      break;
    case 3:
    {
      std::vector<std::pair<std::string, Bytes>> el;
      int n = int(sim::choose(4));
      for (int i = 0; i < n; i++)
        el.emplace_back(words[sim::choose(13)], val(3));
      b = bson_doc(el);
      break;
    }
    case 4: break;  // empty
    case 5: b = Bytes{ uint8_t(sim::choose(256)) }; break;
    case 6:
    {
      Rand r{ sim::choose(1000000) };
      b.resize(size_t(sim::choose(200)));
      for (auto& x : b)
        x = uint8_t(r.next());
      break;
    }
    case 7:  // nesting
    {
      int n = int(sim::range(1, 120));
      for (int i = 0; i < n; i++)
      {
        Bytes h{ 0x40, 0, 0, 0, uint8_t(sim::choose(2) ? 3 : 4), 0 };
        b.insert(b.end(), h.begin(), h.end());
      }
      break;
    }
  }
  int muts = b.empty() ? 0 : int(sim::choose(4));
  for (int i = 0; i < muts && !b.empty(); i++)
    switch (sim::choose(3))
    {
      case 0: b[size_t(sim::choose(b.size()))] ^= uint8_t(1 << sim::choose(8)); break;
      case 1: b.resize(size_t(sim::choose(b.size()))); break;
      case 2: b[size_t(sim::choose(b.size()))] = uint8_t(sim::choose(2) ? 0xff : 0); break;
    }
  return b;
}
const char* const BUILTIN[] = { "process_info", "introspect", "scope_tracing", "trace_configurator", "thrower", "ep", "nosuch", "native_trace_receiver" };
}  // namespace

SCENARIO(unix_hostile)
{
  M = new Model;
  M->relaxed = true;
  kernel_faults();
  Server s = start_server("srv");
  if (!s.t)
    return;
  sim::run_as(s.pid, [&] {
    s.t->addEndpoint(std::make_shared<ThrowingEP>());
    s.t->addEndpoint(std::make_shared<EndpointIntrospect>());
    s.t->addEndpoint(std::make_shared<EndpointProcessInfo>());
    s.t->addEndpoint(std::make_shared<EndpointTraceMapping>());
    s.t->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
  });
  // "ep" is also addressed by hostile peers, with payloads only the oracle of honest traffic knows: give it a tolerant twin
  struct AnyEP : Endpoint
  {
    std::string getName() const override { return "echo"; }
    bool handle(Transport&, const Data& in, Data& out) override
    {
      out = in;
      return true;
    }
  };
  sim::run_as(s.pid, [&] { s.t->addEndpoint(std::make_shared<AnyEP>()); });
  auto ask = [](const Transport::Ptr& t, uint64_t id, int64_t bound, bool must) {
    Bytes d = make_payload(id, size_t(8 + id % 300));
    auto f = t->request("echo", d);
    if (f->wait_for(std::chrono::nanoseconds(bound)) != std::future_status::ready)
    {
      if (must)
        vio({ "C07" }, "a well-formed request is no longer answered while a hostile peer is or was connected");
      return;
    }
    try
    {
      Bytes v = f->get();
      if (v != d)
        vio({ "C07", "C01" }, "a hostile peer corrupted the answer to another client");
      sim::probe("good-client-served");
    }
    catch (const std::exception& e)
    {
      vio({ "C07" }, "a well-formed request failed: %s", e.what());
    }
  };
  Client c;
  c.pid = new_proc("good");
  sim::run_as(c.pid, [&] { c.t = do_connect(s.pid); });
  if (!c.t)
  {
    vio({ "C07", "C02" }, "cannot connect to a live server");
    return;
  }
  std::vector<sim::Task> tasks;
  int nh = int(sim::range(1, 3));
  int hp = new_proc("hostile");
  for (int h = 0; h < nh; h++)
    tasks.push_back(sim::spawn(hp, "raw", [&s] {
      int rounds = int(sim::range(1, 4));
      for (int r = 0; r < rounds; r++)
      {
        int fd = sim::raw_connect(sock_of(s.pid));
        if (fd < 0)
        {
          sim::sleep_ms(5);
          continue;
        }
        int msgs = int(sim::range(1, 5));
        for (int m = 0; m < msgs; m++)
        {
          sim::fault_count(sim::F_GARBAGE);
          Bytes w;
          bool last = false;
          {
            sim::Quiet q;
            switch (sim::choose(6))
            {
              case 0:
              case 1:
              case 2: w = wire(sim::choose(3), BUILTIN[sim::choose(5)], any_payload()); break;
              case 3:  // noise
              {
                Rand rr{ sim::choose(1000000) };
                w.resize(size_t(1 + sim::choose(60)));
                for (auto& x : w)
                  x = uint8_t(rr.next());
                last = true;
                break;
              }
              case 4:  // announces more than it sends
                w = wire(sim::choose(3), BUILTIN[sim::choose(8)] == std::string("ep") ? "thrower" : "nosuch", any_payload(),
                         sim::choose(2) ? 65535 : -1, sim::choose(2) ? 0xffffffffLL : 100000);
                last = true;
                break;
              case 5: w = wire(~0ULL, std::string(size_t(sim::choose(2) ? 65535 : 0), 'x'), any_payload()); break;
            }
          }
          if (!sim::raw_send(fd, w.data(), w.size()))
            break;
          // take whatever is answered, so that the server is never blocked on this peer
          Bytes rb(20000);
          while (sim::raw_recv(fd, rb.data(), rb.size(), last ? 0 : 2 * MS) > 0)
            ;
          if (last)
            break;
        }
        if (sim::flip(1, 5))
          sim::raw_urgent(fd);
        sim::raw_close(fd);
      }
    }));
  // a hostile server, and a client of it
  int fp = new_proc("fakesrv");
  int vp = new_proc("visitor");
  bool stop = false;
  if (sim::flip(1, 2))
  {
    tasks.push_back(sim::spawn(fp, "fake", [fp] {
      int lf = sim::raw_listen(sock_of(fp));
      int fd = sim::raw_accept(lf, 3 * SEC);
      if (fd >= 0)
      {
        int msgs = int(sim::range(1, 6));
        for (int m = 0; m < msgs; m++)
        {
          Bytes rb(5000);
          int64_t n = sim::raw_recv(fd, rb.data(), rb.size(), 20 * MS);
          uint64_t id = sim::choose(4);
          std::string name = BUILTIN[sim::choose(8)];
          if (n >= 14 && sim::flip(2, 3))
          {
            memcpy(&id, rb.data(), 8);
            uint16_t l;
            memcpy(&l, rb.data() + 8, 2);
            if (10 + size_t(l) <= size_t(n))
              name.assign(rb.begin() + 10, rb.begin() + 10 + l);
          }
          sim::fault_count(sim::F_GARBAGE);
          Bytes w;
          {
            sim::Quiet q;
            w = wire(id, name, any_payload());
          }
          if (sim::flip(1, 6))
            w.resize(size_t(sim::choose(w.size())));
          sim::raw_send(fd, w.data(), w.size());
          if (sim::flip(1, 12))
            sim::raw_urgent(fd);
        }
        sim::raw_close(fd);
      }
      sim::raw_close(lf);
    }));
    tasks.push_back(sim::spawn(vp, "visit", [fp] {
      for (int i = 0; i < 60 && !sim::listener_exists(sock_of(fp)); i++)
        sim::sleep_ms(2);
      TransportUnixFactory f;
      auto d = find_dest(f, fp);
      auto t = d ? f.connect(d) : nullptr;
      if (!t)
        return;
      sim::Deadline dl("C07", "a client of a hostile server", 60 * SEC);
      t->addEndpoint(std::make_shared<ThrowingEP>());
      auto pi = EndpointProcessInfo::factory(t);
      auto is = EndpointIntrospect::factory(t);
      auto tm = EndpointTraceMapping::factory(t);
      auto tc = EndpointTraceConfigurator::factory(t);
      t->addEndpoint(pi);
      t->addEndpoint(is);
      t->addEndpoint(tm);
      t->addEndpoint(tc);
      for (int i = 0; i < 5; i++)
      {
        try  // an error to the caller is fine, anything worse is not
        {
          switch (sim::choose(5))
          {
            case 0: pi->processInfo(); break;
            case 1: is->supported(); break;
            case 2: tm->mapping(); break;
            case 3: tc->getTraceState(); break;
            case 4: tc->setTraceState({}); break;
          }
          sim::probe("hostile-answer-accepted");
        }
        catch (const std::exception&)
        {
          sim::probe("hostile-answer-refused");
        }
      }
    }));
  }
  tasks.push_back(sim::spawn(c.pid, "good", [&] {
    int n = int(sim::range(2, 6));
    for (int i = 0; i < n; i++)
      ask(c.t, uint64_t(100 + i), 100 * MS, false);
  }));
  for (auto& t : tasks)
    t.join();
  (void)stop;
  sim::faults_off();
  {
    sim::Deadline dl("C07", "asking a server that hostile peers visited", 30 * SEC);
    sim::run_as(c.pid, [&] {
      ask(c.t, 4711, 10 * SEC, true);
      // the built-in endpoints still work too
      auto pi = EndpointProcessInfo::factory(c.t);
      auto is = EndpointIntrospect::factory(c.t);
      try
      {
        if (pi->processInfo().pid != s.pid)
          vio({ "C07", "C11" }, "process information is wrong after hostile requests");
        if (is->supported().size() != 11)
          vio({ "C07" }, "introspection is wrong after hostile requests");
      }
      catch (const std::exception& e)
      {
        vio({ "C07" }, "a well-formed request to a built-in endpoint failed: %s", e.what());
      }
      c.t.reset();
    });
  }
  sim::Deadline dl("C07", "destroying transports", 30 * SEC);
  sim::run_as(s.pid, [&] { s.t.reset(); });
  if (sim::open_fds(s.pid))
    vio({ "C07", "C06" }, "descriptors leaked: %s", sim::fd_summary(s.pid).c_str());
}

// ---- C10: callbacks that use their transports ----------------------------------------------------------------------------------------------
namespace
{
struct CbWorld
{
  std::vector<Transport::Ptr> all;       // every transport callbacks may use, per process
  std::vector<int> proc_of;
  std::set<Bytes> replies_sent;          // sent back by unsolicited handlers
  std::set<Bytes> replies_seen;
  std::map<const void*, std::vector<int>> reach;  // transport -> indices of transports of the same process
  int budget = 40;
  uint64_t serial = 0;
  std::vector<Transport::PendingResponse> kept;
};
CbWorld* W;

void callback_ops(Transport& t);

class CbEP : public Endpoint
{
public:
  explicit CbEP(std::string n, bool server) : name_(std::move(n)), server_(server) {}
  std::string getName() const override { return name_; }
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    bool reply = false;
    {
      sim::Quiet q;
      if (!in.empty() && in[0] == 'R')
      {
        reply = true;
        if (!W->replies_sent.count(in))
          vio({ "C10" }, "the server endpoint received a reply %s that no unsolicited handler sent", hex(in).c_str());
        if (!W->replies_seen.insert(in).second)
          vio({ "C10" }, "a reply of an unsolicited handler was delivered twice");
        if (!server_)
          vio({ "C10" }, "a reply of an unsolicited handler was delivered to a client");
        sim::probe("unsolicited-reply-delivered");
      }
    }
    callback_ops(t);
    if (reply)
      return false;
    out = in;
    out.push_back(1);
    return true;
  }
  bool unsolicited(Transport& t, const Data& in, Data& out) override
  {
    (void)in;
    callback_ops(t);
    sim::Quiet q;
    if (!sim::flip(1, 2))
      return false;
    out.assign({ 'R' });
    for (int i = 0; i < 4; i++)
      out.push_back(uint8_t(W->serial >> (8 * i)));
    W->serial++;
    out.insert(out.end(), name_.begin(), name_.end());
    W->replies_sent.insert(out);
    return true;
  }

private:
  std::string name_;
  bool server_;
};
const char* const CBN[] = { "cb", "cb2" };

void callback_ops(Transport& t)
{
  int n;
  {
    sim::Quiet q;
    n = W->budget > 0 ? int(sim::choose(3)) : 0;
    W->budget -= n;
  }
  for (int i = 0; i < n; i++)
  {
    Transport* x = &t;
    int op;
    uint64_t ser;
    Bytes d;
    {
      sim::Quiet q;
      auto& r = W->reach[&t];
      if (!r.empty() && sim::flip(1, 2))
        x = W->all[size_t(r[sim::choose(r.size())])].get();
      op = int(sim::choose(9));
      ser = W->serial++;
      d = make_payload(ser, 12);
      d[0] = 'Q';
    }
    sim::ev("callback-op");
    switch (op)
    {
      case 0:
      {
        auto f = x->request(CBN[ser % 2], d);
        sim::Quiet q;
        W->kept.push_back(f);
        break;
      }
      case 1: x->request(CBN[ser % 2], d); break;
      case 2: x->broadcast(CBN[ser % 2], d); break;
      case 3: x->addEndpoint(std::make_shared<CbEP>("extra" + std::to_string(ser % 3), true)); break;
      case 4: (void)x->endpoints(); break;
      case 5: (void)x->getEndpoint("cb"); break;
      case 6: (void)x->isConnected(); break;
      case 7: (void)x->pendingRequests(); break;
      case 8: (void)x->getAddress(); break;
    }
    sim::probe(x == &t ? "callback-own-transport" : "callback-other-transport");
  }
}
}  // namespace

SCENARIO(unix_callbacks)
{
  M = new Model;
  W = new CbWorld;
  kernel_faults();
  // every process serves and is connected to some of the others (or to itself)
  int np = int(sim::range(1, 3));
  std::vector<int> pids;
  std::vector<Transport::Ptr>& srv = *new std::vector<Transport::Ptr>;
  std::vector<Transport::Ptr>& cli = *new std::vector<Transport::Ptr>;
  std::vector<int> cli_proc, cli_to;
  for (int i = 0; i < np; i++)
    pids.push_back(new_proc(i == 0 ? "A" : i == 1 ? "B" : "C"));
  for (int i = 0; i < np; i++)
    sim::run_as(pids[size_t(i)], [&] {
      TransportUnixFactory f;
      srv.push_back(f.serve());
      if (!srv.back())
        vio({ "C10" }, "serve failed");
    });
  int nc = int(sim::range(1, 4));
  for (int i = 0; i < nc; i++)
  {
    int from = int(sim::choose(uint64_t(np))), to = int(sim::choose(uint64_t(np)));
    sim::run_as(pids[size_t(from)], [&] { cli.push_back(do_connect(pids[size_t(to)])); });
    if (!cli.back())
    {
      vio({ "C10" }, "connect failed");
      return;
    }
    cli_proc.push_back(from);
    cli_to.push_back(to);
  }
  {
    sim::Quiet q;
    for (int i = 0; i < np; i++)
    {
      W->all.push_back(srv[size_t(i)]);
      W->proc_of.push_back(i);
    }
    for (int i = 0; i < nc; i++)
    {
      W->all.push_back(cli[size_t(i)]);
      W->proc_of.push_back(cli_proc[size_t(i)]);
    }
    for (size_t i = 0; i < W->all.size(); i++)
      for (size_t j = 0; j < W->all.size(); j++)
        if (W->proc_of[i] == W->proc_of[j])
          W->reach[W->all[i].get()].push_back(int(j));
    W->budget = int(sim::range(5, 40));
  }
  for (int i = 0; i < np; i++)
    for (auto n : CBN)
      sim::run_as(pids[size_t(i)], [&] { srv[size_t(i)]->addEndpoint(std::make_shared<CbEP>(n, true)); });
  for (int i = 0; i < nc; i++)
    for (auto n : CBN)
      sim::run_as(pids[size_t(cli_proc[size_t(i)])], [&] { cli[size_t(i)]->addEndpoint(std::make_shared<CbEP>(n, false)); });
  std::vector<sim::Task> tasks;
  for (int i = 0; i < nc; i++)
    tasks.push_back(sim::spawn(pids[size_t(cli_proc[size_t(i)])], "user", [i, &cli] {
      int n = int(sim::range(1, 4));
      for (int k = 0; k < n; k++)
      {
        Bytes d;
        {
          sim::Quiet q;
          d = make_payload(W->serial++, 12);
          d[0] = 'Q';
        }
        auto f = cli[size_t(i)]->request(CBN[sim::choose(2)], d);
        f->wait_for(std::chrono::milliseconds(50));
        callback_ops(*cli[size_t(i)]);
        sim::Quiet q;
        W->kept.push_back(f);
      }
    }));
  for (int i = 0; i < np; i++)
    tasks.push_back(sim::spawn(pids[size_t(i)], "bcast", [i, &srv] {
      int n = int(sim::range(0, 3));
      for (int k = 0; k < n; k++)
      {
        sim::sleep_ns(sim::range(0, 20) * MS);
        Bytes d;
        {
          sim::Quiet q;
          d = make_payload(W->serial++, 12);
          d[0] = 'B';
        }
        srv[size_t(i)]->broadcast(CBN[sim::choose(2)], d);
      }
    }));
  {
    sim::Deadline d("C10", "using transports from callbacks", 120 * SEC);
    for (auto& t : tasks)
      t.join();
    sim::faults_off();
  }
  // every transport still does its job
  {
    sim::Quiet q;
    W->budget = 0;
  }
  for (int i = 0; i < nc; i++)
    sim::run_as(pids[size_t(cli_proc[size_t(i)])], [&] {
      sim::Deadline d("C10", "a request after callbacks used the transports", 60 * SEC);
      auto f = cli[size_t(i)]->request("cb", { 'Q', 9, 9 });
      if (f->wait_for(std::chrono::seconds(10)) != std::future_status::ready)
        vio({ "C10" }, "a request is not answered any more after callbacks used the transports");
      else
      {
        try
        {
          if (f->get() != Bytes({ 'Q', 9, 9, 1 }))
            vio({ "C10" }, "wrong answer");
        }
        catch (const std::exception& e)
        {
          vio({ "C10" }, "a request failed with %s", e.what());
        }
      }
    });
  if (!sim::wait_until([] { return W->replies_seen.size() == W->replies_sent.size(); }, 10 * SEC))
    vio({ "C10" }, "%zu of %zu replies of unsolicited handlers reached the server's endpoint", W->replies_seen.size(), W->replies_sent.size());
  sim::Deadline d("C10", "destroying transports", 60 * SEC);
  for (auto& f : W->kept)
    f.reset();
  W->all.clear();
  for (int i = 0; i < nc; i++)
    sim::run_as(pids[size_t(cli_proc[size_t(i)])], [&] { cli[size_t(i)].reset(); });
  for (int i = 0; i < np; i++)
    sim::run_as(pids[size_t(i)], [&] { srv[size_t(i)].reset(); });
}

// ---- recorded findings: each reproduces one defect that is not repaired (known-findings.json) ------------------------------------------
namespace
{
class EchoEP : public Endpoint
{
public:
  std::string getName() const override { return "echo"; }
  bool handle(Transport&, const Data& in, Data& out) override
  {
    out = in;
    return true;
  }
};
bool echo_ok(const Transport::Ptr& t, int64_t bound)
{
  auto f = t->request("echo", Bytes{ 1, 2, 3 });
  if (f->wait_for(std::chrono::nanoseconds(bound)) != std::future_status::ready)
    return false;
  try
  {
    return f->get() == Bytes{ 1, 2, 3 };
  }
  catch (const std::exception&)
  {
    return false;
  }
}
}  // namespace

SCENARIO(kf_half_message)
{
  M = new Model;
  Server s = start_server("srv");
  sim::run_as(s.pid, [&] { s.t->addEndpoint(std::make_shared<EchoEP>()); });
  int gp = new_proc("good"), hp = new_proc("halfway");
  Transport::Ptr t;
  bool ok = false;
  sim::run_as(gp, [&] {
    t = do_connect(s.pid);
    ok = t && echo_ok(t, 5 * SEC);
  });
  if (!ok)
    vio({ "C07", "C02", "C06" }, "an undisturbed request fails");
  sim::run_as(hp, [&] {
    int fd = sim::raw_connect(sock_of(s.pid));
    uint8_t half[5] = { 1, 0, 0, 0, 0 };
    sim::raw_send(fd, half, sizeof half);
  });
  sim::sleep_ms(100);
  sim::run_as(gp, [&] { ok = echo_ok(t, 10 * SEC); });
  if (!ok)
    vio({ "C07", "C02" }, "a peer that stops halfway through a message, without disconnecting, keeps the server from answering anyone");
  sim::run_as(gp, [&] { t.reset(); });
  sim::Deadline dl("C06", "destroying a server while a peer stopped halfway through a message", 10 * SEC);
  sim::run_as(s.pid, [&] { s.t.reset(); });
}

SCENARIO(kf_not_reading)
{
  M = new Model;
  Server s = start_server("srv");
  sim::run_as(s.pid, [&] { s.t->addEndpoint(std::make_shared<EchoEP>()); });
  int gp = new_proc("good"), hp = new_proc("notreading");
  Transport::Ptr t;
  bool ok = false;
  sim::run_as(gp, [&] {
    t = do_connect(s.pid);
    ok = t && echo_ok(t, 5 * SEC);
  });
  if (!ok)
    vio({ "C07", "C02", "C06" }, "an undisturbed request fails");
  sim::run_as(hp, [&] { sim::raw_connect(sock_of(s.pid)); });
  sim::sleep_ms(100);
  sim::run_as(s.pid, [&] {
    for (int i = 0; i < 60; i++)
      s.t->broadcast("ep", Bytes(30000));
  });
  sim::sleep_ms(100);
  sim::run_as(gp, [&] { ok = echo_ok(t, 10 * SEC); });
  if (!ok)
    vio({ "C07", "C02" }, "a peer that does not read what it is sent, without disconnecting, keeps the server from answering anyone");
  sim::run_as(gp, [&] { t.reset(); });
  sim::Deadline dl("C06", "destroying a server while a peer does not read what it is sent", 10 * SEC);
  sim::run_as(s.pid, [&] { s.t.reset(); });
}

SCENARIO(kf_deep_bson)
{
  M = new Model;
  Server s = start_server("srv");
  sim::run_as(s.pid, [&] {
    s.t->addEndpoint(std::make_shared<EchoEP>());
    s.t->addEndpoint(std::make_shared<EndpointProcessInfo>());
  });
  int gp = new_proc("good");
  sim::run_as(gp, [&] {
    auto t = do_connect(s.pid);
    Bytes b;
    {
      sim::Quiet q;
      for (int i = 0; i < 60000; i++)
      {
        Bytes h{ 0x40, 0, 0, 0, 3, 0 };
        b.insert(b.end(), h.begin(), h.end());
      }
    }
    t->request("process_info", b);
    if (!echo_ok(t, 30 * SEC))
      vio({ "C07" }, "deeply nested data sent to a built-in endpoint takes the process down");
    t.reset();
  });
  sim::run_as(s.pid, [&] { s.t.reset(); });
}

// the built-in endpoints, called with anything at all by way of the in-process transport, which hands data over as they are
SCENARIO(endpoint_fuzz)
{
  sim::enable(sim::F_TIMEJUMP, 10);
  sim::enable(sim::F_HEAPREUSE, 300);
  auto factory = std::make_shared<TransportLoopbackFactory>();
  auto server = factory->serve();
  server->addEndpoint(std::make_shared<EndpointIntrospect>());
  server->addEndpoint(std::make_shared<EndpointProcessInfo>());
  server->addEndpoint(std::make_shared<EndpointTraceMapping>());
  server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
  StaticStringTracker::getInstance().insert(77, "a name");
  std::vector<sim::Task> ts;
  const int n = int(sim::range(1, 2));
  for (int i = 0; i < n; i++)
    ts.push_back(sim::spawn(sim::main_pid(), "fuzzer", [&] {
      auto c = factory->connect(server->getAddress());
      for (uint64_t k = sim::range(1, 12); k > 0; k--)
      {
        Bytes p = any_payload();
        p.shrink_to_fit();
        sim::ev("garbage");
        sim::fault_count(sim::F_GARBAGE);
        auto f = c->request(BUILTIN[sim::choose(4)], p);
        if (sim::flip(1, 2))
          try
          {
            if (f->wait_for(std::chrono::milliseconds(100)) == std::future_status::ready)
              f->get();
          }
          catch (const std::exception&)
          {
          }
      }
    }));
  for (auto& t : ts)
    t.join();
  sim::faults_off();
  sim::sleep_ms(500);
  sim::Deadline dl("C07", "well-formed queries after garbage", 60 * SEC);
  auto c = factory->connect(server->getAddress());
  try
  {
    if (EndpointIntrospect::factory(c)->supported().size() != 4)
      vio({ "C07" }, "after garbage the introspection endpoint no longer answers correctly");
    if (EndpointProcessInfo::factory(c)->processInfo().pid != sim::main_pid())
      vio({ "C07" }, "after garbage the process information endpoint no longer answers correctly");
    auto m = EndpointTraceMapping::factory(c)->mapping();
    if (m.size() != 1 || m.begin()->second.count(77) == 0 || m.begin()->second[77] != "a name")
      vio({ "C07" }, "after garbage the trace mapping endpoint no longer answers correctly");
    EndpointTraceConfigurator::TraceConfiguration s;
    s.set_process_state = true;
    s.process_state = sim::flip(1, 2);
    auto cfg = EndpointTraceConfigurator::factory(c);
    auto r = cfg->setTraceState(s);
    if (!r.cmd_success || r.process_state != s.process_state)
      vio({ "C07" }, "after garbage the configuration endpoint no longer answers correctly");
  }
  catch (const std::exception& e)
  {
    vio({ "C07" }, "after garbage a well-formed query fails: %s", e.what());
  }
  c.reset();
  server.reset();
}

// long histories: one connection on which far more requests are made than any counter of a smaller width could tell apart
class LongEP : public Endpoint
{
public:
  std::string getName() const final
  {
    return "long";
  }
  bool handle(Transport&, const Bytes& r, Bytes& out) final
  {
    if (r.size() != 5 || r[4])
      return false;
    out = r;
    out.push_back(uint8_t(r[0] ^ 0x5a));
    return true;
  }
};

SCENARIO(unix_many)
{
  if (sim::flip(1, 2))
    kernel_faults();
  const int sp = new_proc("srv"), cp = new_proc("cli");
  Transport::Ptr st, ct;
  sim::run_as(sp, [&] {
    TransportUnixFactory f;
    st = f.serve();
    st->addEndpoint(std::make_shared<LongEP>());
  });
  sim::run_as(cp, [&] { ct = do_connect(sp); });
  if (!st || !ct)
  {
    sim::run_as(cp, [&] { ct.reset(); });
    sim::run_as(sp, [&] { st.reset(); });
    return;
  }
  const bool huge = sim::flip(1, 80);
  if (huge)
  {
    sim::faults_off();
    sim::long_run();
  }
  sim::run_as(cp, [&] {
    std::map<uint32_t, Transport::PendingResponse> held;  // kept, and never answered
    std::vector<std::pair<uint32_t, Transport::PendingResponse>> open;
    uint32_t id = 0;
    auto ask = [&](bool answer) {
      id++;
      return ct->request("long", Bytes{ uint8_t(id), uint8_t(id >> 8), uint8_t(id >> 16), 0x77, uint8_t(!answer) });
    };
    auto settle = [&](uint32_t k, Transport::PendingResponse& f) {
      sim::Deadline d("C02", "waiting for a response after a long history", 120 * SEC);
      Bytes v;
      try
      {
        v = f->get();
      }
      catch (const std::exception& e)
      {
        vio({ "C01", "C02", "C04" }, "request number %u of a connection failed with '%s' although both peers are alive", k, e.what());
      }
      const Bytes want{ uint8_t(k), uint8_t(k >> 8), uint8_t(k >> 16), 0x77, 0, uint8_t(uint8_t(k) ^ 0x5a) };
      if (v != want)
        vio({ "C01", "C04" }, "request number %u of a connection completed with the response to another", k);
    };
    auto hold = [&] {
      auto f = ask(false);
      held[id] = f;
    };
    for (uint64_t k = sim::range(1, 4); k > 0; k--)
      hold();
    const uint32_t total = huge ? 66000 : uint32_t(sim::range(260, 600));
    const uint32_t window = uint32_t(sim::flip(1, 2) ? 1 : sim::range(2, 40));
    while (id < total)
    {
      if (huge && id % 512)
      {
        ask(false);  // abandoned, and not answered
        continue;
      }
      if (sim::flip(1, 200))
        hold();
      if (sim::flip(1, 100))
        ask(sim::flip(1, 2));  // abandoned
      auto f = ask(true);
      open.emplace_back(id, f);
      if (open.size() >= window)
      {
        for (auto& o : open)
          settle(o.first, o.second);
        open.clear();
      }
    }
    for (auto& o : open)
      settle(o.first, o.second);
    open.clear();
    sim::faults_off();
    sim::sleep_ms(1500);
    for (auto& h : held)
      if (h.second->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
        vio({ "C01", "C02", "C04" }, "request number %u, kept and never answered, completed by itself after %u requests", h.first, id);
    if (ct->pendingRequests() != held.size())
      vio({ "C04" }, "%zu requests pending but %zu are kept, after %u requests", ct->pendingRequests(), held.size(), id);
    held.clear();
    sim::sleep_ms(1500);
    if (ct->pendingRequests() != 0)
      vio({ "C04" }, "abandoned requests stay pending after a long history");
    sim::probe(huge ? "huge" : "long");
    ct.reset();
  });
  sim::run_as(sp, [&] { st.reset(); });
}

// a server that stalls at any byte of what it sends or receives, and a client that wants to leave
SCENARIO(stalled_server)
{
  kernel_faults();
  const int fp = new_proc("stalled"), vp = new_proc("client");
  bool* gone = new bool(false);
  auto srv = sim::spawn(fp, "stalled", [fp, gone] {
    int lf = sim::raw_listen(sock_of(fp));
    int fd = sim::flip(1, 8) ? -1 : sim::raw_accept(lf, 3 * SEC);
    if (fd >= 0)
    {
      for (uint64_t m = sim::choose(4); m > 0; m--)
      {
        Bytes rb(size_t(sim::range(1, 3000)));
        sim::raw_recv(fd, rb.data(), rb.size(), 20 * MS);
        Bytes w;
        {
          sim::Quiet q;
          w = wire(sim::flip(1, 2) ? 0 : sim::choose(4), sim::flip(1, 2) ? "ep" : "other", Bytes(size_t(sim::choose(6000)), 7));
        }
        if (m == 1)
          w.resize(size_t(sim::choose(w.size())));
        sim::raw_send(fd, w.data(), w.size());
      }
    }
    sim::fault_count(sim::F_STALL);
    for (int i = 0; i < 5000; i++)  // in small steps, because injected time jumps skip to the next timer
    {
      {
        sim::Quiet q;
        if (*gone)
          break;
      }
      sim::sleep_ms(20);
    }
    if (fd >= 0)
      sim::raw_close(fd);
    sim::raw_close(lf);
  });
  auto cli = sim::spawn(vp, "client", [fp, vp, gone] {
    for (int i = 0; i < 60 && !sim::listener_exists(sock_of(fp)); i++)
      sim::sleep_ms(2);
    {
      TransportUnixFactory f;
      auto d = find_dest(f, fp);
      auto t = d ? f.connect(d) : nullptr;
      if (t)
      {
        std::vector<Transport::PendingResponse> kept;
        for (uint64_t k = sim::choose(4); k > 0; k--)
        {
          auto r = t->request(sim::flip(1, 2) ? "ep" : "other", Bytes(size_t(sim::choose(300)), 1));
          if (sim::flip(2, 3))
            kept.push_back(r);
          if (sim::flip(1, 2))
            sim::sleep_ns(sim::range(0, 60) * MS);
        }
        (void)t->pendingRequests();
        (void)t->isConnected();
        sim::sleep_ns(sim::range(0, 100) * MS);
        const auto which = sim::choose(2) ? "C06" : "C07";
        {
          sim::Deadline dl(which, "destroying a client whose server stalls", 30 * SEC);
          sim::ev("leave");
          t.reset();
        }
        for (auto& r : kept)
          if (r->wait_for(std::chrono::seconds(0)) != std::future_status::ready)
            vio({ "C06", "C05" }, "a request of a client that was destroyed is not ready");
        if (sim::open_fds(vp))
          vio({ "C06" }, "descriptors leaked: %s", sim::fd_summary(vp).c_str());
        sim::probe("left");
      }
    }
    sim::Quiet q;
    *gone = true;
  });
  cli.join();
  srv.join();
}
