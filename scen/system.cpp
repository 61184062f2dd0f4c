// Everything together: traced programs, the real providers, the web server, browsers. What the traced programs did is
// what the browser must be shown.
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_catapult/catapult_server.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_transport/transport_unix.h>
#include <seasocks/Server.h>
#include <deque>
#include "bystander.h"
#include "common.h"
#include "scriptsource.h"
#include "tracemodel.h"

using namespace scalopus;
using nlohmann::json;

#include "frontmodel.inc"
#include "webstub.inc"

namespace
{
struct Shown  // what one browser was shown in one recording
{
  std::vector<json> events, meta;
};
struct Browser
{
  ConnState* c{ nullptr };
  Shown cur;
};
struct SysWorld
{
  std::map<int, std::string> process_name;
};
SysWorld* S;

Browser* open_browser(const char* who, bool polite)
{
  Browser* b = new Browser;
  b->c = web_connect(who);
  b->c->polite = polite;
  b->c->front.on_event = [b](const json& e) { (e.is_object() && e.value("ph", "") == "M" ? b->cur.meta : b->cur.events).push_back(e); };
  return b;
}
// says something and waits until it has been answered
bool say(Browser* b, int kind)
{
  {
    sim::Quiet q;
    web_send(b->c, make_command(kind, false));
  }
  return sim::wait_until([b] { return b->c->front.idle() || b->c->gone; }, 200 * SEC) && !b->c->gone;
}
void judge_meta(const Shown& s, const std::set<int>& living, const std::set<int>& dead)
{
  std::map<int, std::string> name;
  for (auto& m : s.meta)
  {
    const int pid = m.value("pid", 0);
    if (m.value("name", "") == "process_name" && !name.emplace(pid, m.at("args").at("name").get<std::string>()).second)
      vio({ "C11", "C17" }, "the browser is shown the name of process %d twice", pid);
    if (!living.count(pid) && !dead.count(pid))
      vio({ "C11" }, "the browser is told about process %d, which %s", pid, "offers no information");
  }
  for (int p : living)
    if (!name.count(p))
      vio({ "C11" }, "the browser is not told the name of process %d", p);
    else if (name[p] != S->process_name[p])
      vio({ "C11" }, "the browser is told that process %d is called '%.60s' and not '%.60s'", p, name[p].c_str(), S->process_name[p].c_str());
  sim::probe("names-shown");
}
}  // namespace

SCENARIO(end_to_end)
{
  W = new World;
  SW = new SourceWorld;
  WEB = new Web;
  S = new SysWorld;
  tracing_faults();
  sim::enable(sim::F_SPURIOUS, 20);
  sim::enable(sim::F_PEER_DROP, 20);
  if (sim::flip(1, 6))
  {
    sim::enable_exact(sim::F_TIDREUSE, 0);
    sim::coarse_clock(sim::range(1, 2000) * 1000);
  }
  const int n = 1 + int(sim::choose(2));
  const bool aside = sim::flip(1, 6);
  if (aside)
    start_bystander(EndpointProcessInfo::name);
  for (int i = 0; i < n; i++)
  {
    start_proc(i, 1 | 2 | 4 | 8 | 16 | (sim::flip(1, 2) ? 32 : 0));
    Proc& p = W->procs.back();
    const std::string name = sim::flip(1, 4) ? "" : sim::flip(1, 4) ? "a \"name\" \xe2\x82\xac" : "program " + std::to_string(i);
    S->process_name[p.pid] = name;
    sim::run_as(p.pid, [&] { p.api->set_process_name(p.h, name); });
  }
  const int con = sim::new_proc("viewer"), browser = sim::new_proc("browser");
  static std::shared_ptr<EndpointManagerPoll>* mgr;
  static std::shared_ptr<NativeTraceProvider>* native;
  static CatapultServer::Ptr* server;
  mgr = new std::shared_ptr<EndpointManagerPoll>;
  native = new std::shared_ptr<NativeTraceProvider>;
  server = new CatapultServer::Ptr;
  bool ok = false;
  sim::run_as(con, [&] {
    *mgr = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportUnixFactory>());
    (*mgr)->addEndpointFactory<EndpointTraceMapping>();
    (*mgr)->addEndpointFactory<EndpointProcessInfo>();
    (*mgr)->addEndpointFactory<EndpointTraceConfigurator>();
    *native = std::make_shared<NativeTraceProvider>(*mgr);
    (*mgr)->addEndpointFactory(EndpointNativeTraceSender::name, *native);
    *server = std::make_shared<CatapultServer>();
    (*server)->addProvider(*native);
    (*server)->addProvider(std::make_shared<GeneralProvider>(*mgr));
    if (sim::flip(1, 2))
      (*server)->setLogger([](const std::string&) {});
    (*server)->start(9222);
    (*mgr)->startPolling(0.1);
    for (int k = 0; k < 300 && !ok; k++)
    {
      size_t found = 0;
      for (auto& t : (*mgr)->endpoints())
        found += t.second.size() >= 4 ? 1 : 0;
      ok = found >= size_t(n);
      if (!ok)
        sim::sleep_ms(10);
    }
  });
  if (!ok)
  {
    vio({ "C09" }, "the manager did not find all processes");
    return;
  }
  Browser* main;
  {
    sim::Quiet q;
    main = open_browser("browser", true);
  }
  std::vector<sim::Task> tasks;
  const auto trace = [&] {
    for (int i = 0; i < n; i++)
      for (int k = 1 + int(sim::choose(2)); k > 0; k--)
        tasks.push_back(traced_thread(size_t(i), false, false, false, 1 + int(sim::choose(6))));
  };
  // others look as well
  std::vector<sim::Task> others;
  for (int k = int(sim::choose(3)); k > 0; k--)
    others.push_back(sim::spawn(browser, "other", [] {
      Browser* b;
      {
        sim::Quiet q;
        b = open_browser("another browser", false);
      }
      for (int r = 1 + int(sim::choose(2)); r > 0; r--)
      {
        if (!say(b, 2))
          break;
        sim::sleep_ns(sim::range(0, 40) * MS);
        if (!say(b, 3))
          break;
        sim::Quiet q;
        Shown s;
        std::swap(s, b->cur);
        Check c;
        c.may_only = true;
        c.names_known = false;
        c.counters = false;
        c.not_after = W->seq;
        c.what = "recording shown to another browser";
        verify(s.events, c);
        sim::probe("another-recording");
      }
      sim::Quiet q;
      web_close(b->c);
    }));
  const int victim = n > 1 && sim::flip(1, 5) ? 1 : -1;
  Check c;
  std::vector<json> before;
  const int rounds = 1 + int(sim::flip(1, 3));
  for (int r = 0; r < rounds; r++)
  {
    const bool last = r == rounds - 1;
    if (sim::flip(1, 3))
      trace();  // it goes on already
    if (!say(main, 2))
      return vio({ "C17", "C13" }, "the browser is not told that a trace was started");
    {
      sim::Quiet q;
      c.required_from = W->seq;
    }
    trace();
    if (last && victim >= 0)
      sim::kill_proc_after(W->procs[size_t(victim)].pid, sim::points_of(W->procs[size_t(victim)].pid) + uint64_t(sim::range(1, 3000)));
    for (auto& t : tasks)
      t.join();
    tasks.clear();
    if (last)
    {
      sim::faults_off();
      if (victim >= 0)
      {
        sim::kill_proc(W->procs[size_t(victim)].pid);
        c.dead.insert(W->procs[size_t(victim)].pid);
      }
      sim::sleep_ms(1500);
    }
    if (!say(main, 3))
      return vio({ "C17", "C13" }, "the browser is not told that a trace was ended");
    sim::Quiet q;
    Shown s;
    std::swap(s, main->cur);
    c.what = "recording shown to the browser";
    c.may_only = !last;
    c.names_known = c.counters = last;
    c.not_after = W->seq;
    verify(s.events, c);
    if (!s.events.empty())
      sim::probe("events-shown");
    // nothing is shown twice
    for (auto& e : before)
      for (auto& f : s.events)
        if (e == f && e.value("ph", "") == "C" && !W->ring)
        {
          size_t same = 0;
          for (Thread* t : W->threads)
            for (auto& x : t->exp)
              same += x.ph == 'C' && x.value == e.at("args").value(x.series, INT64_C(0)) && x.name == e.value("name", "");
          if (same <= 1)
            vio({ "C17" }, "an event is shown in two recordings: %s", show(e).c_str());
        }
    before.insert(before.end(), s.events.begin(), s.events.end());
    if (last)
    {
      std::set<int> living, dead;
      for (Proc& p : W->procs)
        (c.dead.count(p.pid) ? dead : living).insert(p.pid);
      judge_meta(s, living, dead);
    }
  }
  for (auto& t : others)
    t.join();
  {
    sim::Quiet q;
    if (sim::flip(1, 2))
      web_close(main->c);
  }
  {
    sim::Deadline d("C17", "taking everything down", 120 * SEC);
    sim::run_as(con, [&] {
      if (sim::flip(1, 2))
      {
        server->reset();
        (*mgr)->stopPolling();
      }
      else
      {
        (*mgr)->stopPolling();
        server->reset();
      }
      native->reset();
      mgr->reset();
    });
  }
  {
    sim::Quiet q;
    WEB->down = true;
  }
  for (size_t i = 0; i < W->procs.size(); i++)
  {
    Proc& p = W->procs[i];
    if (!sim::alive(p.pid))
      continue;
    std::vector<sim::Task> late;
    if (sim::flip(1, 3))
      late.push_back(traced_thread(i, false, false, false, 5 + int(sim::choose(12))));
    sim::run_as(p.pid, [&] { p.api->destroy(p.h, 0); });
    for (auto& t : late)
      t.join();
  }
  if (sim::live_threads(con) > 0)
    vio({ "C17" }, "the viewer leaves a thread behind");
}
