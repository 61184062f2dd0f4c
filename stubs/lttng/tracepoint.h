// Stand-in for lttng-ust: a tracepoint is handed, with its fields as declared, to the simulated LTTng session.
#pragma once
#include <cstdint>
#include <sstream>
#include <string>

void sim_lttng_emit(const char* provider, const char* name, const std::string& fields);

namespace sim_lttng
{
template <class T>
inline void field(std::string& o, const char* name, T v)
{
  std::ostringstream s;
  s << +v;
  o += (o.empty() ? "" : ", ") + std::string(name) + " = " + s.str();
}
inline void text(std::string& o, const char* name, const std::string& v) { o += (o.empty() ? "" : ", ") + std::string(name) + " = \"" + v + "\""; }
}  // namespace sim_lttng

#define SIM_NARG_(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define SIM_NARG(...) SIM_NARG_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1)
#define SIM_CAT_(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT_(a, b)
#define SIM_DECL_2(t, a) t a
#define SIM_DECL_4(t, a, u, b) t a, u b
#define SIM_DECL_6(t, a, u, b, v, c) t a, u b, v c
#define SIM_NAME_2(t, a) a
#define SIM_NAME_4(t, a, u, b) a, b
#define SIM_NAME_6(t, a, u, b, v, c) a, b, c
#define SIM_DECL(...) SIM_CAT(SIM_DECL_, SIM_NARG(__VA_ARGS__))(__VA_ARGS__)
#define SIM_NAME(...) SIM_CAT(SIM_NAME_, SIM_NARG(__VA_ARGS__))(__VA_ARGS__)
#define SIM_DECL_TP(args) SIM_CAT(SIM_DECL_, args)
#define SIM_NAME_TP(args) SIM_CAT(SIM_NAME_, args)
#define SIM_DECL_TP_ARGS(...) SIM_DECL(__VA_ARGS__)
#define SIM_NAME_TP_ARGS(...) SIM_NAME(__VA_ARGS__)
#define TP_FIELDS(...) __VA_ARGS__
#define ctf_integer(type, name, expr) sim_lttng::field<type>(sim_fields, #name, (type)(expr));
#define ctf_integer_hex(type, name, expr) sim_lttng::field<type>(sim_fields, #name, (type)(expr));
#define ctf_string(name, expr) sim_lttng::text(sim_fields, #name, expr);

#define TRACEPOINT_EVENT_CLASS(provider, cls, args, fields)                                                                                     \
  static inline std::string sim_class_##provider##_##cls(SIM_DECL_##args)                                                                       \
  {                                                                                                                                             \
    std::string sim_fields;                                                                                                                     \
    fields return sim_fields;                                                                                                                   \
  }
#define TRACEPOINT_EVENT_INSTANCE(provider, cls, name, args)                                                                                    \
  static inline void sim_tp_##provider##_##name(SIM_DECL_##args)                                                                                \
  {                                                                                                                                             \
    sim_lttng_emit(#provider, #name, sim_class_##provider##_##cls(SIM_NAME_##args));                                                            \
  }
#define TRACEPOINT_EVENT(provider, name, args, fields)                                                                                          \
  TRACEPOINT_EVENT_CLASS(provider, name, args, fields) TRACEPOINT_EVENT_INSTANCE(provider, name, name, args)
#define TRACEPOINT_LOGLEVEL(...)
#define tracepoint(provider, name, ...) sim_tp_##provider##_##name(__VA_ARGS__)
#define tracepoint_enabled(provider, name) true
#define do_tracepoint tracepoint
#define lttng_ust_tracepoint tracepoint
