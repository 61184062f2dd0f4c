// Scenarios about tracing with the native tracepoints: producers p1/p2 (own copies of the library) and one consumer.
#include <pthread.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/general_source.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include <scalopus_transport/transport_unix.h>
#include <time.h>
#include <array>
#include <atomic>
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include "bystander.h"
#include "common.h"
#include "producer.h"
#include "sim.h"
#include "spsc_ringbuffer.h"
#include "tracepoint_collector_native.h"
#include "tracemodel.h"

using namespace scalopus;

namespace
{
// ---- consumer ---------------------------------------------------------------------------------------------------------
struct Consumer
{
  int pid;
  std::shared_ptr<EndpointManagerPoll> mgr;
  std::shared_ptr<NativeTraceProvider> prov;
  void start()
  {
    mgr = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportUnixFactory>());
    prov = std::make_shared<NativeTraceProvider>(mgr);
    mgr->addEndpointFactory(EndpointTraceMapping::name, EndpointTraceMapping::factory);
    mgr->addEndpointFactory(EndpointTraceConfigurator::name, EndpointTraceConfigurator::factory);
    mgr->addEndpointFactory(EndpointProcessInfo::name, EndpointProcessInfo::factory);
    std::weak_ptr<NativeTraceProvider> w = prov;
    mgr->addEndpointFactory(EndpointNativeTraceSender::name, [w](const Transport::Ptr& t) {
      auto p = w.lock();
      return p ? p->factory(t) : Endpoint::Ptr{};
    });
  }
  size_t connected(size_t need)
  {
    size_t n = 0;
    for (auto& t : mgr->endpoints())
      if (t.second.size() >= need)
        n++;
    return n;
  }
  bool connect(size_t procs, size_t need)
  {
    for (int k = 0; k < 300; k++)
    {
      mgr->manage();
      if (connected(need) >= procs)
        return true;
      sim::sleep_ms(10);
    }
    return false;
  }
};
// a process that claims to have events to report, but only ever sends nonsense
class LiarSender : public Endpoint
{
public:
  std::string getName() const override { return EndpointNativeTraceSender::name; }
};
Data nonsense(int pid)
{
  using namespace tracepoint_collector_types;
  Data out;
  std::map<unsigned long, EventContainer> ev;
  switch (sim::choose(6))
  {
    case 0:
      out.resize(size_t(sim::choose(40)));
      for (auto& x : out)
        x = uint8_t(sim::choose(256));
      return out;
    case 1:
    {
      const std::map<std::string, cbor::cbor_object> m{ { "pid", cbor::cbor_object{ static_cast<unsigned long>(pid) } } };
      cbor::to_cbor(m, out);
      return out;
    }
    case 2:
    {
      const std::map<std::string, cbor::cbor_object> m{ { "pid", cbor::cbor_object{ std::string("x") } },
                                                         { "events", cbor::cbor_object{ std::string("y") } } };
      cbor::to_cbor(m, out);
      return out;
    }
    default:
    {
      StaticTraceEvent e;
      e.time_point = 5;
      e.trace_type = sim::flip(1, 2) ? 99 : TracePointCollectorNative::COUNTER;
      ev[77].push_back(std::move(e));
      const std::map<std::string, cbor::cbor_object> m{ { "pid", cbor::cbor_object{ static_cast<unsigned long>(pid) } },
                                                         { "events", cbor::cbor_object{ ev } } };
      cbor::to_cbor(m, out);
      if (sim::flip(1, 2))
        out.resize(size_t(sim::choose(out.size())));
      return out;
    }
  }
}
}  // namespace

SCENARIO(native_trace)
{
  W = new World;
  const std::string prop = sim::deciding();
  const bool c14 = prop == "C14" || (prop.empty() && sim::flip(1, 3));
  tracing_faults();
  if (sim::flip(1, 6))  // many events carry the same time; threads that share an id could not be told apart then
  {
    sim::enable_exact(sim::F_TIDREUSE, 0);
    sim::coarse_clock(sim::range(1, 2000) * 1000);
  }
  if (!c14 && sim::flip(1, 4))
    W->ring = size_t(sim::range(2, 6));
  const int n = c14 ? 1 + int(sim::flip(1, 4)) : 1 + int(sim::choose(2));
  const bool liar = sim::flip(1, 3), first = sim::flip(1, 2);
  int lp = 0;
  auto lt = new Transport::Ptr;
  const auto start_liar = [&] {
    lp = sim::new_proc("liar");
    sim::run_as(lp, [&] {
      *lt = TransportUnixFactory().serve();
      if (!*lt)
        return;
      (*lt)->addEndpoint(std::make_shared<EndpointIntrospect>());
      (*lt)->addEndpoint(std::make_shared<LiarMapping>());
      (*lt)->addEndpoint(std::make_shared<LiarSender>());
    });
  };
  if (liar && first)
    start_liar();
  for (int i = 0; i < n; i++)
    start_proc(i, 1 | 4 | 8 | 16 | (sim::flip(1, 2) ? 32 : 0));
  if (liar && !first)
    start_liar();
  const bool aside = sim::flip(1, 4);
  if (aside)
    start_bystander(EndpointProcessInfo::name);
  Consumer* con = new Consumer;
  con->pid = sim::new_proc("viewer");
  TraceEventSource::Ptr src, early;
  bool ok = false;
  sim::run_as(con->pid, [&] {
    con->start();
    ok = con->connect(size_t(n), 4);
    for (int k = 0; (liar || aside) && k < 20 && (con->connected(2) < size_t(n) + liar || con->connected(1) < size_t(n) + liar + aside); k++)
    {
      con->mgr->manage();
      sim::sleep_ms(10);
    }
    if (sim::flip(1, 3))  // a recording that began before, and is dropped while this one runs
    {
      early = con->prov->makeSource();
      early->startInterval();
    }
    src = con->prov->makeSource();
    src->startInterval();
  });
  if (!ok)
  {
    vio({ "C09" }, "the manager did not find all processes");
    return;
  }
  const bool poll = sim::flip(1, 3);
  if (poll)
    sim::run_as(con->pid, [&] { con->mgr->startPolling(0.05); });
  std::vector<sim::Task> tasks;
  for (int i = 0; i < n; i++)
  {
    const int nt = 1 + int(sim::choose(3));
    for (int k = 0; k < nt; k++)
      tasks.push_back(traced_thread(size_t(i), c14, W->ring != 0 || prop == "C16", W->ring != 0, W->ring ? 4 + int(sim::choose(20)) : 1 + int(sim::choose(6))));
  }
  if (liar && *lt)
    tasks.push_back(sim::spawn(lp, "liar", [lt, lp] {
      for (uint64_t k = sim::range(1, 5); k > 0; k--)
      {
        sim::sleep_ns(sim::range(0, 15) * MS);
        sim::fault_count(sim::F_GARBAGE);
        (*lt)->broadcast("native_trace_receiver", nonsense(lp));
      }
    }));
  if (early)
    tasks.push_back(sim::spawn(con->pid, "dropper", [&early] {
      sim::sleep_ns(sim::range(0, 40) * MS);
      early.reset();
    }));
  // another viewer shows up while all this goes on
  struct Late
  {
    Consumer* con{ new Consumer };
    TraceEventSource::Ptr src;
    Check c;
  };
  Late* late_viewer = nullptr;
  if (!c14 && !W->ring && sim::flip(1, 4))
  {
    late_viewer = new Late;
    late_viewer->con->pid = sim::new_proc("viewer2");
    tasks.push_back(sim::spawn(late_viewer->con->pid, "viewer2", [late_viewer, n] {
      sim::sleep_ns(sim::range(0, 30) * MS);
      late_viewer->con->start();
      if (!late_viewer->con->connect(size_t(n), 4))
        return;
      late_viewer->src = late_viewer->con->prov->makeSource();
      late_viewer->src->startInterval();
      sim::ev("viewer2-recording");
      sim::Quiet q;
      late_viewer->c.required_from = W->seq;
      late_viewer->c.what = "recording of a viewer that came later";
    }));
  }
  // another recording comes and goes meanwhile
  const bool second = !c14 && sim::flip(1, 2);
  if (second)
    tasks.push_back(sim::spawn(con->pid, "session", [con] {
      auto s = con->prov->makeSource();
      const int rounds = 1 + int(sim::choose(3));
      for (int k = 0; k < rounds; k++)
      {
        s->startInterval();
        sim::sleep_ns(sim::range(0, 40) * MS);
        if (sim::flip(1, 2))
          s->stopInterval();
        auto r = s->finishInterval();
        sim::Quiet q;
        Check c;
        c.may_only = true;
        c.names_known = false;
        c.counters = false;
        c.not_after = W->seq;
        c.what = "second recording";
        verify(r, c);
      }
    }));
  // remote configuration
  const auto remote = [con](size_t pi, bool must) {
    std::shared_ptr<EndpointTraceConfigurator> ep;
    char want[40];
    snprintf(want, sizeof want, "<unix:%d>", W->procs[pi].pid);
    const auto held = con->mgr->endpoints();  // an endpoint is used while its transport is held
    for (auto& t : held)
      if (std::string(*t.first->getAddress()) == want)
        ep = EndpointManager::findEndpoint<EndpointTraceConfigurator>(t.second);
    if (!ep)
    {
      if (must)
        vio({ "C14" }, "the configurator of running process %d is gone", W->procs[pi].pid);
      return;
    }
    const bool set = sim::flip(2, 3);
    EndpointTraceConfigurator::TraceConfiguration cfg;
    RemoteSet* rs = nullptr;
    size_t pw = 0;
    int64_t a;
    std::set<unsigned long> tids;
    {
      sim::Quiet q;
      a = tick();
      if (set)
      {
        cfg.set_process_state = sim::flip(1, 3);
        cfg.process_state = !sim::flip(1, 2);
        if (cfg.set_process_state)
        {
          W->procs[pi].reg.w.push_back({ a, NEVER, cfg.process_state ? ON : OFF, true });
          pw = W->procs[pi].reg.w.size() - 1;
        }
        for (Thread* t : W->threads)
          if (t->pid == W->procs[pi].pid && !tids.count(t->tid) && sim::flip(1, 2))
          {
            tids.insert(t->tid);
            cfg.thread_state[t->tid] = !sim::flip(1, 2);
          }
        if (sim::flip(1, 4))
          cfg.thread_state[0x1234567] = false;  // nobody
        rs = new RemoteSet;
        rs->pid = W->procs[pi].pid;
        rs->a = a;
        rs->threads.insert(cfg.thread_state.begin(), cfg.thread_state.end());
        for (Thread* t : W->threads)
          if (t->exit_e == NEVER)
            rs->add(t);
        W->inflight.push_back(rs);
      }
    }
    EndpointTraceConfigurator::TraceConfiguration ans;
    bool answered = false;
    try
    {
      ans = set ? ep->setTraceState(cfg) : ep->getTraceState();
      answered = ans.cmd_success;
    }
    catch (const std::exception&)
    {
    }
    sim::ev(set ? "remote-set" : "remote-get");
    sim::Quiet q;
    const int64_t b = tick();
    Proc& p = W->procs[pi];
    if (set && cfg.set_process_state)
    {
      p.reg.w[pw].e = answered ? b : NEVER;
      p.reg.w[pw].weak = !answered;
    }
    if (rs && answered)
    {
      W->inflight.erase(std::find(W->inflight.begin(), W->inflight.end(), rs));
      for (auto& x : rs->touched)
      {
        Thread* t = x.first;
        Write& w = t->reg.w[x.second];
        w.e = b;
        if (t->registered < a && t->exit_s > b)
        {
          w.weak = false;
          sim::probe("remote-thread-set");
        }
        else if (t->registered_s > b || t->exit_e < a)
          w.mask = 0;  // had no state then
      }
    }
    if (!answered)
    {
      sim::probe("remote-unanswered");
      if (must)
        vio({ "C14" }, "a %s of the configuration of running process %d is not answered", set ? "change" : "query", p.pid);
      return;
    }
    sim::probe("remote-answered");
    const Write* own = set && cfg.set_process_state ? &p.reg.w[pw] : nullptr;
    if (!(p.reg.possible(a, b, own) & (ans.process_state ? ON : OFF)))
      vio({ "C14" }, "the configurator reports process state %d, which it was not set to", ans.process_state);
    std::map<unsigned long, int> explained;
    for (Thread* t : W->threads)
    {
      if (t->pid != p.pid)
        continue;
      if (t->registered_s < b && t->exit_e > a)
      {
        const Write* o = nullptr;
        if (rs)
          for (auto& x : rs->touched)
            if (x.first == t && !t->reg.w[x.second].weak)
              o = &t->reg.w[x.second];
        explained[t->tid] |= t->reg.possible(a, b, o);
      }
      if (t->registered < a && t->exit_s > b && !ans.thread_state.count(t->tid))
        vio({ "C14" }, "a living thread is missing from the reported state");
    }
    for (auto& x : ans.thread_state)
    {
      if (!explained.count(x.first))
        vio({ "C14" }, "a thread %lx that has exited or never existed is reported", x.first);
      else if (!(explained[x.first] & (x.second ? ON : OFF)))
        vio({ "C14" }, "thread %lx is reported as %d, which it was not set to", x.first, x.second);
    }
  };
  if (c14)
    tasks.push_back(sim::spawn(con->pid, "remote", [remote] {
      const int rounds = int(sim::choose(5));
      for (int k = 0; k < rounds; k++)
      {
        sim::sleep_ns(sim::range(0, 20) * MS);
        remote(size_t(sim::choose(W->procs.size())), false);
      }
    }));
  const int victim = !c14 && n > 1 && sim::flip(1, 4) ? 1 : -1;
  if (victim >= 0)
    sim::kill_proc_after(W->procs[size_t(victim)].pid, sim::points_of(W->procs[size_t(victim)].pid) + uint64_t(sim::range(1, 3000)));
  for (auto& t : tasks)
    t.join();
  sim::faults_off();
  sim::sleep_ms(1500);
  Check c;
  if (victim >= 0)
  {
    sim::kill_proc(W->procs[size_t(victim)].pid);
    c.dead.insert(W->procs[size_t(victim)].pid);
  }
  if (c14)
    sim::run_as(con->pid, [&] {
      for (size_t i = 0; i < W->procs.size(); i++)
        remote(i, true);
    });
  std::vector<json> res;
  sim::run_as(con->pid, [&] {
    sim::Deadline d("C13", "finishing a recording", 60 * SEC);
    if (sim::flip(1, 2))
      src->stopInterval();
    res = src->finishInterval();
  });
  {
    sim::Quiet q;
    verify(res, c);
    if (!res.empty())
      sim::probe("events-recorded");
  }
  if (late_viewer)
  {
    std::vector<json> r;
    sim::run_as(late_viewer->con->pid, [&] {
      if (late_viewer->src)
      {
        late_viewer->c.dead = c.dead;
        r = late_viewer->src->finishInterval();
        sim::Quiet q;
        verify(r, late_viewer->c);
        sim::probe("second-viewer");
      }
      late_viewer->src.reset();
      late_viewer->con->prov.reset();
      late_viewer->con->mgr.reset();
    });
  }
  sim::Deadline d("C17", "taking everything down", 60 * SEC);
  sim::run_as(con->pid, [&] {
    src.reset();
    con->mgr->stopPolling();
    con->prov.reset();
    con->mgr.reset();
  });
  if (liar)
    sim::run_as(lp, [&] { lt->reset(); });
  for (size_t i = 0; i < W->procs.size(); i++)
  {
    Proc& p = W->procs[i];
    if (!sim::alive(p.pid))
      continue;
    std::vector<sim::Task> late;
    if (sim::flip(1, 3))  // still tracing
      late.push_back(traced_thread(i, false, false, false, 5 + int(sim::choose(12))));
    sim::sleep_ns(sim::range(0, 20) * MS);
    const int64_t outlive = sim::flip(1, 2) ? sim::range(1, 40) * MS : 0;  // the endpoint may live longer than its transport
    sim::run_as(p.pid, [&] { p.api->destroy(p.h, outlive); });
    for (auto& t : late)
      t.join();
  }
}

#include "ring.inc"
#include "singletons.inc"
#include "sessions.inc"
#include "names.inc"
#include "fresh_names.inc"
