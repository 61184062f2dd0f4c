// A traced process: its own copy of the library (own namespace), driven through this table.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

struct TraceDef  // what one use of a tracepoint must show up as
{
  std::string name;    // as shown in the recording
  std::string series;  // counters
  char kind;           // S scope, g/p/t mark, C counter
};
struct ProducerApi
{
  // what: 1 introspection, 2 process info, 4 trace mapping, 8 configurator, 16 native sender, 32 sender before the others
  void* (*serve)(unsigned what);
  void (*destroy)(void* h, int64_t outlive);  // keeps the sender for that long after its transport
  void (*set_process_name)(void* h, const std::string& name);
  void (*name_thread)(const std::string& name);          // ThreadNameTracker::setCurrentName
  void (*name_thread_macro)(int which);                  // TRACE_THREAD_NAME("macro 0"), ("macro 1")
  void (*emit)(int which, int64_t value, const std::function<void()>& inner);
  void (*scoped)(bool process, bool state, const std::function<void()>& inner);
  bool (*set_state)(bool process, bool state);
  bool (*get_state)(bool process);
  void (*set_ring)(size_t n);
  std::vector<TraceDef> (*defs)();
};
const ProducerApi* producer_api_1();
const ProducerApi* producer_api_2();
const ProducerApi* producer_api_3();  // LTTng tracepoints
const ProducerApi* producer_api_4();
