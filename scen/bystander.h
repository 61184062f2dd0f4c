// A process that offers other endpoints than the ones a viewer is after: it answers introspection, and nothing that a
// recording needs. Viewers must pass over it.
#ifndef SCEN_BYSTANDER_H
#define SCEN_BYSTANDER_H
#include <scalopus_interface/transport.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_transport/transport_unix.h>
#include "common.h"

struct Aside : scalopus::Endpoint
{
  std::string n;
  explicit Aside(std::string name) : n(std::move(name)) {}
  std::string getName() const override { return n; }
  bool handle(scalopus::Transport&, const scalopus::Data&, scalopus::Data&) override { return false; }
};

inline void start_bystander(const std::string& offers)
{
  const int pid = sim::new_proc("bystander");
  sim::run_as(pid, [&] {
    auto t = new scalopus::Transport::Ptr(scalopus::TransportUnixFactory().serve());
    if (!*t)
      return;
    (*t)->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
    (*t)->addEndpoint(std::make_shared<Aside>(offers));
  });
}
#endif
