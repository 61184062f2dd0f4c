// Compiled twice, with -Dscalopus=scalopus_p1 / scalopus_p2: each copy is the library inside one traced process.
#include "producer.h"
#include "sim.h"
#include <scalopus_general/general.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/internal/scope_trace_raii.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/internal/trace_configuration_raii.h>
#include <scalopus_tracing/tracing.h>
#include <scalopus_transport/transport_unix.h>
#ifndef SIM_LTTNG
#include "tracepoint_collector_native.h"
#endif

#if SIM_COPY % 2 == 1
#define TAG "1"
#else
#define TAG "2"
#endif

#define PLAIN_ID 7u
#define LONG_50 "a name that is a lot longer than what is usual .. "
#define LONG_NAME LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50 LONG_50
namespace
{
struct H
{
  scalopus::Transport::Ptr t;
  std::shared_ptr<scalopus::EndpointProcessInfo> info;
  scalopus::Endpoint::Ptr sender;
};
void* serve(unsigned what)
{
  H* h = new H;
  scalopus::TransportUnixFactory f;
  h->t = f.serve();
  if (!h->t)
    return h;
#ifndef SIM_LTTNG
  if ((what & 16) && (what & 32))
    h->t->addEndpoint(h->sender = std::make_shared<scalopus::EndpointNativeTraceSender>());
#endif
  if (what & 1)
    h->t->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  if (what & 2)
  {
    h->info = std::make_shared<scalopus::EndpointProcessInfo>();
    h->t->addEndpoint(h->info);
  }
  if (what & 4)
    h->t->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
  if (what & 8)
    h->t->addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
#ifndef SIM_LTTNG
  if ((what & 16) && !(what & 32))
    h->t->addEndpoint(h->sender = std::make_shared<scalopus::EndpointNativeTraceSender>());
#endif
  return h;
}
void destroy(void* p, int64_t outlive)
{
  H* h = static_cast<H*>(p);
  if (!outlive)
    h->sender.reset();
  h->t.reset();
  if (outlive)
    sim::sleep_ns(outlive);
  h->sender.reset();
  delete h;
}
void set_process_name(void* p, const std::string& n) { static_cast<H*>(p)->info->setProcessName(n); }
void name_thread(const std::string& n) { scalopus::ThreadNameTracker::getInstance().setCurrentName(n); }
void name_thread_macro(int w)
{
  if (w == 0)
  {
    TRACE_THREAD_NAME("macro 0");
  }
  else
  {
    TRACE_THREAD_NAME("macro 1");
  }
}
void pretty(const std::function<void()>& inner)
{
  TRACE_PRETTY_FUNCTION();
  inner();
}
void emit(int which, int64_t v, const std::function<void()>& inner)
{
  switch (which)
  {
    case 0:
    {
      TRACE_SCOPE_RAII("scope A" TAG);
      inner();
      break;
    }
    case 1:
    {
      TRACE_SCOPE_START("scope B");
      inner();
      TRACE_SCOPE_END("scope B");
      break;
    }
    case 2: pretty(inner); break;
    case 3:
    {
      TRACE_SCOPE_RAII("dir" TAG "/with/slashes");
      inner();
      break;
    }
    case 4: { TRACE_MARK_EVENT_GLOBAL("mark g" TAG); break; }
    case 5: { TRACE_MARK_EVENT_PROCESS("mark p"); break; }
    case 6: { TRACE_MARK_EVENT_THREAD("mark t" TAG); break; }
    case 7: { TRACE_COUNT("single", v); break; }
    case 8: { TRACE_COUNT_SERIES("multi", "x", v); break; }
    case 9: { TRACE_COUNT_SERIES("multi", "y", v); break; }
    case 10: { TRACE_COUNT_SERIES("multi", "z" TAG, v); break; }
    case 11: { TRACE_COUNT_SERIES("other", "x", v); break; }
    case 12: { TRACE_COUNT_SERIES("multi", "x", v); break; }  // a second place that sets the same series
    case 13: { TRACE_COUNT_SERIES("multi", "p/q", v); break; }
    case 14: { TRACE_COUNT_SERIES("single", "s" TAG, v); break; }
    case 15: { TRACE_COUNT_SERIES("mult", "i/x", v); break; }
    case 16: { TRACE_MARK_EVENT_THREAD(LONG_NAME TAG); break; }
    case 17: { TRACE_MARK_EVENT_PROCESS("q\"uo'te\\ {} = , \n\t%s \xc3\xa9 " TAG); break; }
    case 18: { TRACE_COUNT_SERIES("single", "count", v); break; }  // the series TRACE_COUNT uses
    case 19:  // a counter whose name is made at run time, as the Python bindings do
    {
      const std::string name = std::string("plain") + TAG;
      static const bool once = (scalopus::StaticStringTracker::getInstance().insert(PLAIN_ID, name.c_str()), true);
      static_cast<void>(once);
      scalopus::count_event(PLAIN_ID, v);
      break;
    }
  }
}
std::vector<TraceDef> defs()
{
  return { { "scope A" TAG, "", 'S' },
           { "scope B", "", 'S' },
           { "void {anonymous}::pretty(const std::function<void()>&)", "", 'S' },
           { "dir" TAG "/with/slashes", "", 'S' },
           { "mark g" TAG, "", 'g' },
           { "mark p", "", 'p' },
           { "mark t" TAG, "", 't' },
           { "single", "count", 'C' },
           { "multi", "x", 'C' },
           { "multi", "y", 'C' },
           { "multi", "z" TAG, 'C' },
           { "other", "x", 'C' },
           { "multi", "x", 'C' },
           { "multi", "p/q", 'C' },
           { "single", "s" TAG, 'C' },
           { "mult", "i/x", 'C' },
           { LONG_NAME TAG, "", 't' },
           { "q\"uo'te\\ {} = , \n\t%s \xc3\xa9 " TAG, "", 'p' },
           { "single", "count", 'C' },
           { "plain" TAG, "count", 'C' } };
}
void scoped(bool process, bool state, const std::function<void()>& inner)
{
  if (process)
  {
    TRACING_CONFIG_PROCESS_STATE_RAII(state);
    inner();
  }
  else
  {
    TRACING_CONFIG_THREAD_STATE_RAII(state);
    inner();
  }
}
bool set_state(bool process, bool state)
{
  auto c = scalopus::TraceConfigurator::getInstance();
  return process ? c->setProcessState(state) : c->setThreadState(state);
}
bool get_state(bool process)
{
  auto c = scalopus::TraceConfigurator::getInstance();
  return process ? c->getProcessState() : c->getThreadState();
}
#ifdef SIM_LTTNG
void set_ring(size_t) {}
#else
void set_ring(size_t n) { scalopus::TracePointCollectorNative::getInstance()->setRingbufferSize(n); }
#endif
const ProducerApi api = { serve, destroy, set_process_name, name_thread, name_thread_macro, emit, scoped, set_state, get_state, set_ring, defs };
}  // namespace

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
const ProducerApi* CAT(producer_api_, SIM_COPY)() { return &api; }
