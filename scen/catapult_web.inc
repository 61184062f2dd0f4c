// C19: clients of the web server.
SCENARIO(web_clients)
{
  SW = new SourceWorld;
  WEB = new Web;
  catapult_faults();
  sim::enable(sim::F_PEER_DROP, 60);
  if (sim::flip(1, 10))
    sim::enable_exact(sim::F_LISTEN_FAIL, 1000);
  SW->allow_fail = sim::flip(1, 4);
  SW->allow_slow = sim::flip(1, 3);
  SW->allow_odd = sim::flip(1, 4);
  const bool hostile = sim::flip(1, 3);
  const int pid = sim::new_proc("server");
  const int browser = sim::new_proc("browser");
  CatapultServer* server = nullptr;
  bool started = true;
  if (sim::flip(1, 4))
    sim::enable_exact(sim::F_THREAD_FAIL, 1 + int(sim::choose(200)));
  if (sim::flip(1, 8))
  {
    SW->allow_no_source = true;
    sim::enable_exact(sim::F_SOURCE_FAIL, 1 + int(sim::choose(200)));
  }
  const int providers = int(sim::choose(3));
  sim::run_as(pid, [&] {
    server = new CatapultServer;
    for (int i = 0; i < providers; i++)
      server->addProvider(std::make_shared<ScriptProvider>());
    if (sim::flip(1, 2))
      server->setLogger([](const std::string&) {
        sim::Quiet q;
        WEB->logs++;
        if (WEB->down)
          vio({ "C19" }, "the server logs after it is gone");
      });
    if (sim::flip(1, 4))
      server->setSeasocksWarningLogger();
    try
    {
      server->start(9222);
    }
    catch (const std::system_error&)
    {
      started = false;  // no thread for it
      sim::probe("web-server-not-started");
    }
  });
  if (!started)
  {
    sim::run_as(pid, [&] {
      sim::Deadline d("C19", "stopping the web server", 120 * SEC);
      delete server;
    });
    return;
  }
  std::vector<sim::Task> tasks;
  const int clients = int(sim::choose(4));
  for (int k = 0; k < clients; k++)
    tasks.push_back(sim::spawn(browser, "client", [hostile] {
      const int rounds = 1 + int(sim::choose(3));
      for (int r = 0; r < rounds; r++)
      {
        ConnState* c;
        {
          sim::Quiet q;
          c = web_connect("browser");
        }
        const int msgs = int(sim::choose(6));
        for (int i = 0; i < msgs; i++)
        {
          if (sim::flip(1, 2))
            sim::sleep_ns(sim::range(0, 40) * MS);
          sim::Quiet q;
          if (hostile && sim::flip(1, 6))
          {
            WebEvent e;
            e.kind = 3;
            e.text = "binary";
            c->events.push_back(e);
          }
          else if (sim::flip(1, 8))
          {
            WebEvent e;
            e.kind = 5;
            e.text = sim::flip(1, 2) ? "/json/version" : sim::flip(1, 2) ? "/json/list?for_tab" : "/favicon.ico";
            c->events.push_back(e);
          }
          else
            web_send(c, make_message(hostile));
        }
        if (sim::flip(1, 2))
          sim::sleep_ns(sim::range(0, 60) * MS);
        if (sim::flip(1, 3))
          sim::wait_until([&] { return c->front.idle() || c->gone; }, 5 * SEC);
        sim::Quiet q;
        web_close(c);
      }
    }));
  const bool abrupt = sim::flip(1, 2);
  if (abrupt)
    sim::sleep_ns(sim::range(0, 150) * MS);
  else
  {
    for (auto& t : tasks)
      t.join();
    sim::faults_off();
    if (!WEB->refused)
    {
      // everything that was closed is let go
      if (!sim::wait_until(
              [] {
                for (auto c : WEB->conns)
                  if (!c->gone)
                    return false;
                for (auto s : SW->sources)
                  if (s->alive)
                    return false;
                return true;
              },
              120 * SEC))
        vio({ "C19" }, "a connection was closed and its session still exists");
      // and the server still serves
      const int more = sim::flip(1, 20) ? int(sim::range(3, 40)) : 1 + int(sim::choose(2));
      std::vector<ConnState*> cs;
      for (int k = 0; k < more; k++)
      {
        sim::Quiet q;
        auto c = web_connect("late");
        c->polite = true;
        cs.push_back(c);
        for (int kind = 1; kind <= 3; kind++)
          web_send(c, make_command(kind, false));
      }
      if (!sim::wait_until(
              [&] {
                for (auto c : cs)
                  if (!c->front.idle())
                    return false;
                return true;
              },
              120 * SEC))
        vio({ "C19" }, "a connected front end is not answered");
      sim::Quiet q;
      for (auto c : cs)
      {
        int n = 0;
        for (auto s : SW->sources)
          n += s->conn == c->id;
        if (n != providers)
          vio({ "C19" }, "the session of connection %d has %d sources, there are %d providers", c->id, n, providers);
      }
      if (sim::flip(1, 2))
        for (auto c : cs)
          web_close(c);
    }
  }
  sim::run_as(pid, [&] {
    sim::Deadline d("C19", "stopping the web server", 120 * SEC);
    delete server;
  });
  {
    sim::Quiet q;
    WEB->down = true;
    for (auto s : SW->sources)
      if (s->alive)
        vio({ "C19" }, "the server is gone and the session of connection %d still exists", s->conn);
  }
  for (auto& t : tasks)
    t.join();
  sim::sleep_ms(50);
  if (sim::live_threads(pid) > 0)
    vio({ "C19" }, "the web server leaves a thread behind");
}
