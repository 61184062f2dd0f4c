// The parser by itself, reading whatever descriptor it is given: with and without having been announced, more than
// once, with nothing to read from.
SCENARIO(parser_direct)
{
  V = new LWorld;
  TW = new ToolWorld;
  sim::enable(sim::F_EINTR_SELECT, 30);
  sim::enable(sim::F_EINTR_READ, 30);
  sim::enable(sim::F_SHORT_READ, 100);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 50);
  sim::enable(sim::F_TIMEJUMP, 10);
  sim::enable(sim::F_HEAPREUSE, 300);
  const int pid = sim::new_proc("reader");
  static std::shared_ptr<BabeltraceParser>* parser;
  parser = new std::shared_ptr<BabeltraceParser>;
  sim::run_as(pid, [&] {
    signal(SIGPIPE, SIG_IGN);
    *parser = std::make_shared<BabeltraceParser>();
    if (sim::flip(1, 2))
      (*parser)->setLogger([](const std::string&) { sim::yield(); });
    if (sim::flip(1, 6))
      (*parser)->setLogger(nullptr);
  });
  const auto add = [pid] {
    Listener* l = nullptr;
    sim::run_as(pid, [&] {
      l = listen_with([](const OnLine& f) {
        auto cb = std::make_shared<BabeltraceParser::EventCallback>();
        cb->callback = f;
        (*parser)->setCallback(cb);
        return cb;
      });
    });
    return l;
  };
  const int rounds = 1 + int(sim::flip(1, 3));
  for (int round = 0; round < rounds; round++)
  {
    TW->listeners.clear();
    TW->halt_s = TW->halt_e = NEVER;
    Viewer* v = new Viewer;
    const int m = int(sim::choose(12));
    for (int k = 0; k < m; k++)
    {
      Line* l = new Line;
      l->text = a_line();
      v->todo.push_back(l);
    }
    const int ending = int(sim::choose(4));
    if (ending == 1 || ending == 3)
      v->unfinished = "unfinished";
    const bool nothing = sim::flip(1, 10), announced = sim::flip(1, 2), early_halt = announced && sim::flip(1, 6);
    int p[2] = { -1, -1 };
    FILE* file = nullptr;
    sim::run_as(pid, [&] {
      if (!nothing && pipe(p) == 0)
        file = fdopen(p[0], "r");
    });
    std::vector<Listener*> keep;
    bool returned = false, *const ret = &returned;
    if (announced)
      sim::run_as(pid, [&] { (*parser)->prepare(); });
    if (early_halt)
      sim::run_as(pid, [&] { (*parser)->halt(); });
    if (sim::flip(1, 3))
      keep.push_back(add());
    sim::Task reader = sim::spawn(pid, "reader", [file, ret] {
      (*parser)->process(file);
      sim::Quiet q;
      *ret = true;
    });
    if (nothing || early_halt)
    {
      sim::Deadline d("C21", nothing ? "a parser without a file returning" : "a halted parser returning", 30 * SEC);
      reader.join();
      sim::probe(nothing ? "no-file" : "halted-before");
      sim::run_as(pid, [&] {
        if ((*parser)->isProcessing())
          vio({ "C21" }, "a parser that returned claims to be running");
        (*parser)->halt();
        if (!nothing)
          close(p[0]), close(p[1]);
      });
      continue;
    }
    {
      sim::Deadline d("C21", "the parser starting", 30 * SEC);
      sim::run_as(pid, [&] {
        while (!(*parser)->isProcessing())
          poll(nullptr, 0, 1);
      });
    }
    for (int k = int(sim::choose(3)); k > 0; k--)
      keep.push_back(add());
    const bool stays = sim::flip(1, 2);  // the writer doesn't end it, halt() has to
    sim::Task writer = sim::spawn(pid, "writer", [v, p, stays] {
      print_lines(v, p[1], -1);
      if (!stays)
        close(p[1]);
    });
    std::vector<sim::Task> tasks;
    for (int k = int(sim::choose(3)); k > 0; k--)
      tasks.push_back(sim::spawn(pid, "session", [add] {
        for (int j = 1 + int(sim::choose(3)); j > 0; j--)
        {
          if (sim::flip(1, 2))
            sim::sleep_ns(sim::range(1, 50) * MS);
          Listener* l = add();
          if (sim::flip(2, 3))
            sim::sleep_ns(sim::range(1, 50) * MS);
          disable_listener(l);
        }
      }));
    for (auto& t : tasks)
      t.join();
    const bool whole = sim::flip(2, 3);
    if (whole)
    {
      sim::faults_off();
      {
        sim::Quiet q;
        v->finish = true;
      }
      writer.join();
      sim::sleep_ms(500);
      sim::Quiet q;
      for (Listener* l : keep)
        l->must_end = true;
      judge(v, true);
      sim::probe(stays ? "silence" : "end-of-stream");
      if (!stays && !returned)
        vio({ "C21" }, "the parser goes on after the end of the file");
    }
    {
      sim::Quiet q;
      v->finish = true;
    }
    {
      sim::Deadline d("C21", "halting the parser", 60 * SEC);
      sim::run_as(pid, [&] { (*parser)->halt(); });
      {
        sim::Quiet q;
        TW->halt_e = seq();
      }
      reader.join();
    }
    sim::run_as(pid, [&] {
      if ((*parser)->isProcessing())
        vio({ "C21" }, "a parser that returned claims to be running");
      close(p[0]);
    });
    if (!whole)
    {
      writer.join();
      sim::Quiet q;
      judge(v, false);
    }
    if (stays)
      sim::run_as(pid, [&] { close(p[1]); });
  }
  sim::run_as(pid, [&] { parser->reset(); });
}
