// C20: the recorder, used in any order.
namespace
{
struct RecState
{
  bool running{ false };
  bool gone{ false };
  size_t first{ 0 };  // sources of the last start: [first, end)
};
RecState* RS;

// the text is what a collection returned that began with these finish counts
void check_collected(const std::string& text, const std::map<int, int>& finishes, const char* what)
{
  json a = json::parse(text, nullptr, false);
  if (a.is_discarded() || !a.is_array())
  {
    vio({ "C20" }, "%s: no valid JSON array: %.300s", what, text.c_str());
    SW->pending.clear();
    return;
  }
  for (auto& e : a)
    deliver({ "C20" }, e, what);
  if (!SW->pending.empty())
  {
    vio({ "C20" }, "%s: event %d of source %d is missing (%zu are)", what, SW->pending.begin()->first, SW->pending.begin()->second.first, SW->pending.size());
    SW->pending.clear();
  }
  for (size_t i = RS->first; i < SW->sources.size(); i++)
  {
    auto s = SW->sources[i];
    auto it = finishes.find(s->id);
    if (s->finishes != (it == finishes.end() ? 0 : it->second) + 1)
      vio({ "C20" }, "%s: source %d was finished %d times", what, s->id, s->finishes - (it == finishes.end() ? 0 : it->second));
  }
}
std::map<int, int> finish_counts()
{
  std::map<int, int> r;
  for (auto s : SW->sources)
    r[s->id] = s->finishes;
  return r;
}
}  // namespace

SCENARIO(recorder)
{
  SW = new SourceWorld;
  RS = new RecState;
  catapult_faults();
  sim::enable(sim::F_DISK_SHORT, 200);
  sim::enable(sim::F_THREAD_FAIL, 200);
  SW->allow_fail = sim::flip(1, 4);
  SW->allow_slow = sim::flip(1, 3);
  SW->allow_odd = sim::flip(1, 4);
  SW->allow_bulk = sim::flip(1, 12);
  const int pid = sim::new_proc("recorder");
  sim::run_as(pid, [&] {
    auto rec = std::make_shared<CatapultRecorder>();
    int providers = 0;
    std::string dump;
    int files = 0;
    auto add = [&] {
      rec->addProvider(std::make_shared<ScriptProvider>());
      providers++;
    };
    for (int n = int(sim::choose(3)); n > 0; n--)
      add();
    const int ops = int(sim::choose(14));
    for (int i = 0; i < ops; i++)
    {
      sim::Deadline d("C20", "an operation of the recorder", 60 * SEC);
      switch (sim::choose(10))
      {
        case 0:
        case 1:
        {
          size_t before;
          {
            sim::Quiet q;
            before = SW->sources.size();
          }
          bool up = true;
          try
          {
            rec->start();
          }
          catch (const std::system_error&)
          {
            up = false;  // no thread for it
          }
          sim::Quiet q;
          sim::ev("start");
          if (!RS->running)
          {
            if (SW->sources.size() - before != size_t(providers))
              vio({ "C20" }, "started with %d providers, %zu sources were made", providers, SW->sources.size() - before);
            RS->first = before;
          }
          else
            sim::probe("started-twice");
          if (!up)
            sim::probe("not-started");
          RS->running = RS->running || up;
          break;
        }
        case 2:
        {
          rec->stop();
          std::vector<int> works;
          {
            sim::Quiet q;
            sim::ev("stop");
            if (!RS->running)
              sim::probe("stopped-when-not-running");
            RS->running = false;
            for (auto s : SW->sources)
              works.push_back(s->works);
          }
          if (sim::flip(1, 2))
            sim::sleep_ms(30);
          sim::Quiet q;
          for (size_t k = 0; k < works.size(); k++)
            if (works[k] != SW->sources[k]->works)
              vio({ "C20" }, "the recorder was stopped, source %zu still works", k);
          break;
        }
        case 3:
        case 4:
        {
          rec->startInterval();
          sim::Quiet q;
          sim::ev("startInterval");
          for (size_t k = RS->first; k < SW->sources.size(); k++)
            if (SW->sources[k]->starts == 0)
              vio({ "C20" }, "startInterval did not reach source %zu", k);
          break;
        }
        case 5:
          rec->stopInterval();
          sim::ev("stopInterval");
          break;
        case 6:
        {
          std::map<int, int> f;
          {
            sim::Quiet q;
            f = finish_counts();
          }
          std::string text = rec->collectEvents();
          sim::Quiet q;
          sim::ev("collect");
          check_collected(text, f, "collected");
          break;
        }
        case 7:
        {
          std::map<int, int> f;
          std::string path;
          {
            sim::Quiet q;
            f = finish_counts();
            path = "/sim/file" + std::to_string(sim::flip(1, 2) ? files : files++);
          }
          rec->writeToFile(path);
          sim::Quiet q;
          sim::ev("write");
          check_collected(sim::file_contents(path), f, "file");
          break;
        }
        case 8:
          dump = "/sim/dump" + std::to_string(sim::choose(2));
          rec->setupDumpFile(dump);
          break;
        default:
          if (sim::flip(1, 3))
            add();
          else
            sim::sleep_ns(sim::range(0, 60) * MS);
          break;
      }
    }
    // while it runs, sources get to work
    bool running;
    std::vector<int> works;
    size_t first;
    {
      sim::Quiet q;
      running = RS->running;
      first = RS->first;
      for (auto s : SW->sources)
        works.push_back(s->works);
    }
    if (running && sim::flip(1, 3))
    {
      sim::faults_off();
      if (!sim::wait_until(
              [&] {
                for (size_t k = first; k < works.size(); k++)
                  if (SW->sources[k]->works == works[k])
                    return false;
                return true;
              },
              20 * SEC))
        vio({ "C20" }, "the recorder runs and a source is never given the opportunity to work");
    }
    std::map<int, int> f;
    {
      sim::Quiet q;
      f = finish_counts();
    }
    {
      sim::Deadline d("C20", "destroying the recorder", 60 * SEC);
      rec.reset();
    }
    sim::Quiet q;
    if (!dump.empty())
    {
      sim::probe("dumped");
      if (!sim::file_exists(dump))
        vio({ "C20" }, "the dump file was not written");
      else
        check_collected(sim::file_contents(dump), f, "dump file");
    }
    for (auto s : SW->sources)
      if (s->alive)
        vio({ "C20" }, "source %d outlives the recorder", s->id);
  });
  sim::sleep_ms(50);
  if (sim::live_threads(pid) > 0)
    vio({ "C20" }, "the recorder leaves its worker behind");
}
