// Scripted trace event sources: they collect events in work(), may be slow and may fail. Everything they hand out is
// accounted for, so that a scenario can tell exactly which events have to arrive where.
#pragma once
#include <scalopus_interface/trace_event_provider.h>
#include <scalopus_interface/trace_event_source.h>
#include <nlohmann/json.hpp>
#include "common.h"

struct SourceState
{
  int id;
  int conn{ -1 };
  bool alive{ true };
  bool recording{ false };
  bool fails{ false };   // calls may throw
  bool slow{ false };
  bool odd{ false };     // event contents that are not valid UTF-8
  int bulk{ -1 };        // this many events appear on finishing
  int starts{ 0 }, stops{ 0 }, finishes{ 0 }, works{ 0 };
  int finish_failed{ 0 };
  std::vector<nlohmann::json> cur;
};

struct SourceWorld
{
  std::vector<SourceState*> sources;
  std::map<int, std::pair<int, int>> pending;  // event id -> source, number of the finished interval; handed out by finishInterval and not delivered yet
  std::map<int, nlohmann::json> content;  // what has to arrive, for events that can be represented exactly
  int next_event{ 1 };
  int conn{ -1 };                       // connection whose session is being made
  bool allow_fail{ false }, allow_slow{ false }, allow_odd{ false }, allow_bulk{ false }, allow_no_source{ false };
};
static SourceWorld* SW;

static nlohmann::json make_event(SourceState& s)
{
  nlohmann::json e;
  const int id = SW->next_event++;
  e["ph"] = "X";
  e["ts"] = double(id) * 1.5;
  e["pid"] = s.id;
  e["args"] = { { "id", id }, { "src", s.id } };
  bool exact = true;
  switch (sim::choose(s.odd ? 6 : 4))
  {
    case 0:
      e["name"] = "event";
      break;
    case 1:
      e["name"] = "quote\" back\\slash \n\t newline ] } ,";
      break;
    case 2:
      e["name"] = std::string("nul\0in\x01name", 11);
      break;
    case 3:
      e["name"] = "sm\xc3\xb8rrebr\xc3\xb8""d \xe2\x82\xac";
      break;
    case 4:
      e["name"] = "latin1 \xe9\xe8 end";
      exact = false;
      break;
    default:
      e["name"] = "cut \xe2\x82";
      exact = false;
      break;
  }
  if (exact)
    SW->content[id] = e;
  return e;
}

class ScriptSource : public scalopus::TraceEventSource
{
public:
  explicit ScriptSource(SourceState* s) : st(s)
  {
  }
  ~ScriptSource() override
  {
    touched_++;
    sim::Quiet q;
    st->alive = false;
  }
  void startInterval() override
  {
    touched_++;
    bool bad;
    {
      sim::Quiet q;
      st->starts++;
      bad = fails();
      if (!bad)
        st->recording = true;
      st->cur.clear();
    }
    slow();
    if (bad)
      throw std::runtime_error("the source can't start");
  }
  void stopInterval() override
  {
    touched_++;
    bool bad;
    {
      sim::Quiet q;
      st->stops++;
      st->recording = false;
      bad = fails();
    }
    slow();
    if (bad)
      throw std::runtime_error("the source can't stop");
  }
  std::vector<scalopus::json> finishInterval() override
  {
    touched_++;
    slow();
    std::vector<scalopus::json> r;
    bool bad;
    {
      sim::Quiet q;
      st->finishes++;
      st->recording = false;
      bad = fails();
      if (bad)
      {
        st->finish_failed++;
        st->cur.clear();
      }
      else
      {
        if (st->bulk >= 0 && st->finishes < 3)
          while (int(st->cur.size()) < st->bulk)
            st->cur.push_back(make_event(*st));
        for (auto& e : st->cur)
          SW->pending[e["args"]["id"].get<int>()] = { st->id, st->finishes };
        r.swap(st->cur);
      }
    }
    if (bad)
      throw std::runtime_error("the source can't finish");
    return r;
  }
  void work() override
  {
    touched_++;
    bool bad;
    {
      sim::Quiet q;
      st->works++;
      bad = fails();
      if (!bad && st->recording && st->cur.size() < 12)
        for (uint64_t k = sim::choose(3); k > 0; k--)
          st->cur.push_back(make_event(*st));
    }
    if (bad)
      throw std::runtime_error("the source can't work");
  }

private:
  bool fails()
  {
    return st->fails && sim::faults_active() && sim::flip(1, 4);
  }
  void slow()
  {
    if (st->slow && sim::flip(1, 3))
      sim::sleep_ns(sim::range(1, 300) * MS);
  }
  SourceState* st;
  int touched_{ 0 };  // calls from several threads at once show up as a data race
};

class ScriptProvider : public scalopus::TraceEventProvider
{
public:
  scalopus::TraceEventSource::Ptr makeSource() override
  {
    SourceState* s;
    {
      sim::Quiet q;
      if (SW->allow_no_source && sim::fault(sim::F_SOURCE_FAIL))
        throw std::runtime_error("no source");
      s = new SourceState;
      s->id = int(SW->sources.size());
      s->conn = SW->conn;
      s->fails = SW->allow_fail && sim::flip(1, 3);
      s->slow = SW->allow_slow && sim::flip(1, 3);
      s->odd = SW->allow_odd && sim::flip(1, 2);
      if (SW->allow_bulk && SW->sources.empty())
      {
        static const int sizes[] = { 0, 1, 999, 1000, 1001, 1999, 2000, 2001 };
        s->bulk = sizes[sim::choose(8)];
      }
      SW->sources.push_back(s);
    }
    return std::make_shared<ScriptSource>(s);
  }
};

// one delivered event; returns the source it came from, -1 if it must not have arrived
static int deliver(std::initializer_list<const char*> props, const nlohmann::json& e, const char* where)
{
  if (!e.is_object() || !e.count("args") || !e["args"].count("id"))
  {
    vio(props, "%s: something that is no event of a source: %s", where, e.dump(-1, ' ', true, nlohmann::json::error_handler_t::replace).c_str());
    return -1;
  }
  const int id = e["args"]["id"].get<int>();
  auto it = SW->pending.find(id);
  if (it == SW->pending.end())
  {
    vio(props, "%s: event %d arrives a second time or belongs to no finished interval", where, id);
    return -1;
  }
  auto c = SW->content.find(id);
  if (c != SW->content.end() && c->second != e)
    vio(props, "%s: event %d changed: sent %s, arrived %s", where, id, c->second.dump().c_str(), e.dump().c_str());
  const int src = it->second.first;
  SW->pending.erase(it);
  return src;
}
