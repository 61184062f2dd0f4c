// The front end of the tracing tool: what it says, and a reference model of what it may be answered.
namespace
{
void catapult_faults()
{
  sim::enable(sim::F_TIMEJUMP, 30);
  sim::enable(sim::F_STALL, 10);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 50);
  sim::enable(sim::F_SPURIOUS, 20);
}

struct Cmd
{
  std::string text;
  int kind;  // 0 not a command, 1 getCategories, 2 start, 3 end
  json id;
};

// a message of the front end; the ids are unique in the whole run
int next_id = 1;
Cmd make_command(int kind, bool hostile)
{
  Cmd c;
  c.kind = kind;
  const int n = next_id++;
  switch (sim::choose(hostile ? 4 : 2))
  {
    case 0:
      c.id = n;
      break;
    case 1:
      c.id = 1000000000000LL + n;
      break;
    case 2:
      c.id = "id-" + std::to_string(n) + " \"quoted\"";
      break;
    default:
      c.id = -n;
      break;
  }
  static const char* const names[] = { "", "Tracing.getCategories", "Tracing.start", "Tracing.end" };
  json m = { { "id", c.id }, { "method", names[c.kind] } };
  if (sim::flip(1, 2))
    m["params"] = { { "categories", "-*" }, { "options", "sampling-frequency=10000" }, { "nested", { 1, 2, json::object() } } };
  c.text = m.dump();
  return c;
}

Cmd make_message(bool hostile)
{
  Cmd c;
  c.kind = 0;
  if (hostile && sim::flip(1, 3))
  {
    static const char* const bad[] = { "",
                                       "{",
                                       "null",
                                       "[]",
                                       "[{\"method\":\"Tracing.start\"}]",
                                       "7",
                                       "\"Tracing.start\"",
                                       "{}",
                                       "{\"id\":1}",
                                       "{\"method\":5,\"id\":1}",
                                       "{\"method\":null,\"id\":1}",
                                       "{\"method\":{\"Tracing.start\":1},\"id\":3}",
                                       "{\"method\":\"Page.enable\",\"id\":99}",
                                       "{\"method\":\"Tracing.startt\",\"id\":98}",
                                       "{\"id\":4,\"method\":\"Tracing.end\"",
                                       "{\"method\":\"Tracing.end\",\"id\":}",
                                       "\xff\xfe\x00",
                                       "{\"method\":\"\xe2\x82\",\"id\":2}",
                                       "true",
                                       "{\"method\":\"Tracing.requestMemoryDump\",\"id\":97,\"params\":{}}" };
    c.text = bad[sim::choose(sizeof bad / sizeof bad[0])];
    return c;
  }
  return make_command(1 + int(sim::choose(3)), hostile);
}

// Reference model of one session: consumes its outgoing messages one at a time.
struct Front
{
  const char* prop{ "" };
  const char* prop2{ "" };
  std::string name;
  std::deque<Cmd> expect;  // recognised commands that have not been answered
  bool in_data{ false };
  int conn{ -1 };          // -1: all sources belong to this session
  int starts{ 0 }, ends{ 0 };
  size_t answered{ 0 }, chunks{ 0 };
  std::function<void(const json&)> on_event;  // if set, the events are judged there

  std::vector<SourceState*> mine() const
  {
    std::vector<SourceState*> r;
    for (auto s : SW->sources)
      if (conn == -1 || s->conn == conn)
        r.push_back(s);
    return r;
  }
  bool idle() const
  {
    return expect.empty() && !in_data;
  }
  void take(const std::string& text)
  {
    json m = json::parse(text, nullptr, false);
    if (m.is_discarded() || !m.is_object())
    {
      vio({ prop, prop2 }, "%s: the front end is sent something that is no JSON object: %.200s", name.c_str(), text.c_str());
      return;
    }
    if (m.count("id"))
    {
      answered++;
      if (in_data)
        vio({ prop, prop2 }, "%s: answer %s arrives between the events of a trace and its completion", name.c_str(), m["id"].dump().c_str());
      if (expect.empty() || expect.front().id != m["id"])
      {
        vio({ prop, prop2 }, "%s: answer with id %s, expected is %s", name.c_str(), m["id"].dump().c_str(),
            expect.empty() ? "none" : expect.front().id.dump().c_str());
        return;
      }
      const Cmd c = expect.front();
      expect.pop_front();
      if (!m.count("result"))
        vio({ prop, prop2 }, "%s: answer to %s has no result", name.c_str(), c.text.c_str());
      if (c.kind == 1 && !(m["result"].is_object() && m["result"].count("categories") && m["result"]["categories"].is_array()))
        vio({ prop, prop2 }, "%s: the answer to getCategories has no list of categories: %s", name.c_str(), text.c_str());
      if (c.kind == 2)
      {
        starts++;
        for (auto s : mine())
          if (conn == -1 ? s->starts != starts : s->starts < starts)
            vio({ prop, prop2 }, "%s: %d traces have been started, source %d was started %d times", name.c_str(), starts, s->id, s->starts);
      }
      if (c.kind == 3)
      {
        in_data = true;
        ends++;
      }
      return;
    }
    const std::string method = m.count("method") && m["method"].is_string() ? m["method"].get<std::string>() : "";
    if (method == "Tracing.dataCollected")
    {
      if (!in_data)
        vio({ prop, prop2 }, "%s: events arrive although no trace was ended", name.c_str());
      if (!m.count("params") || !m["params"].is_object() || !m["params"].count("value") || !m["params"]["value"].is_array())
      {
        vio({ prop, prop2 }, "%s: events are not a list in params.value: %.200s", name.c_str(), text.c_str());
        return;
      }
      chunks++;
      const auto& v = m["params"]["value"];
      if (v.size() > 1000)
        vio({ prop, prop2 }, "%s: a chunk has %zu events", name.c_str(), v.size());
      for (auto& e : v)
      {
        if (on_event)
        {
          on_event(e);
          continue;
        }
        const int src = deliver({ prop, prop2 }, e, name.c_str());
        if (src >= 0 && conn != -1 && SW->sources[size_t(src)]->conn != conn)
          vio({ prop, prop2 }, "%s: an event of source %d, which belongs to the session of connection %d", name.c_str(), src, SW->sources[size_t(src)]->conn);
      }
      return;
    }
    if (method == "Tracing.tracingComplete")
    {
      if (!in_data)
        vio({ prop, prop2 }, "%s: a trace completes that was not ended", name.c_str());
      in_data = false;
      for (auto s : mine())
      {
        if (conn == -1 ? s->finishes != ends : s->finishes < ends)
          vio({ prop, prop2 }, "%s: %d traces have completed, source %d was finished %d times", name.c_str(), ends, s->id, s->finishes);
        for (auto& p : SW->pending)
          if (p.second.first == s->id && p.second.second <= ends)
          {
            vio({ prop, prop2 }, "%s: the trace completes without event %d of source %d", name.c_str(), p.first, s->id);
            break;
          }
      }
      return;
    }
    vio({ prop, prop2 }, "%s: unexpected message %.200s", name.c_str(), text.c_str());
  }
};
}  // namespace
