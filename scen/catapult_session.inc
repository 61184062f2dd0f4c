// C18: one TraceSession, driven directly.
SCENARIO(trace_session)
{
  SW = new SourceWorld;
  catapult_faults();
  SW->allow_fail = sim::flip(1, 3);
  SW->allow_slow = sim::flip(1, 3);
  SW->allow_odd = sim::flip(1, 3);
  SW->allow_bulk = sim::flip(1, 12);
  const bool hostile = sim::flip(1, 2);
  struct Shared
  {
    Front front;
    bool closed{ false };
    int logs{ 0 };
  };
  static Shared* sh;
  sh = new Shared;
  sh->front.prop = "C18";
  sh->front.name = "session";
  const int pid = sim::new_proc("server");
  TraceSession::Ptr session;
  const int n = int(sim::choose(4));
  const bool slow_wire = sim::flip(1, 3);
  sim::run_as(pid, [&] {
    session = std::make_shared<TraceSession>([slow_wire](std::string s) {
      {
        sim::Quiet q;
        if (sh->closed)
          vio({ "C18" }, "the session sends after it was closed: %.100s", s.c_str());
        sh->front.take(s);
        sim::ev("outgoing");
      }
      if (slow_wire && sim::flip(1, 4))
        sim::sleep_ns(sim::range(0, 50) * MS);
    });
    session->setLogger([](const std::string&) {
      sim::Quiet q;
      sh->logs++;
    });
    for (int i = 0; i < n; i++)
    {
      ScriptProvider p;
      session->addSource(p.makeSource());
    }
    const bool early = sim::flip(1, 3);
    const int msgs = int(sim::choose(9));
    for (int i = 0; i < msgs; i++)
    {
      if (sim::flip(1, 2))
        sim::sleep_ns(sim::range(0, 60) * MS);
      std::string text;
      {
        sim::Quiet q;
        Cmd c = make_message(hostile);
        if (c.kind)
          sh->front.expect.push_back(c);
        else
          sim::probe("malformed-message");
        text = c.text;
        sim::ev("message");
      }
      session->incoming(text);
    }
    if (!early)
    {
      const bool faulty = sim::flip(1, 2);
      if (!faulty)
        sim::faults_off();
      if (!sim::wait_until([] { return sh->front.idle(); }, 120 * SEC))
      {
        sim::faults_off();
        if (!sim::wait_until([] { return sh->front.idle(); }, 120 * SEC))
          vio({ "C18" }, "no answer to %s (%zu commands outstanding%s)", sh->front.expect.empty() ? "" : sh->front.expect.front().text.c_str(), sh->front.expect.size(),
              sh->front.in_data ? ", a trace does not complete" : "");
      }
      // the session still works, whatever happened
      sim::faults_off();
      std::vector<int> before;
      {
        sim::Quiet q;
        for (auto s : SW->sources)
          before.push_back(s->works);
      }
      for (int kind = 1; kind <= 3; kind++)
      {
        std::string text;
        {
          sim::Quiet q;
          Cmd c = make_command(kind, false);
          sh->front.expect.push_back(c);
          text = c.text;
        }
        session->incoming(text);
        if (!sim::wait_until([] { return sh->front.idle(); }, 60 * SEC))
        {
          vio({ "C18" }, "no answer to %s", text.c_str());
          break;
        }
      }
      if (!sim::wait_until([&] {
            for (size_t i = 0; i < SW->sources.size(); i++)
              if (SW->sources[i]->works <= before[i])
                return false;
            return true;
          },
                           20 * SEC))
        vio({ "C18" }, "a source of an open session is not given the opportunity to work any more");
    }
    else if (sim::flip(1, 2))
      sim::sleep_ns(sim::range(0, 100) * MS);
    {
      sim::Deadline d("C18", "closing the session", 60 * SEC);
      session.reset();
    }
    sim::Quiet q;
    sh->closed = true;
    for (auto s : SW->sources)
      if (s->alive)
        vio({ "C18" }, "source %d outlives its session", s->id);
  });
  sim::sleep_ms(50);
  if (sim::live_threads(pid) > 0)
    vio({ "C18" }, "a session that was closed leaves a thread behind");
}
