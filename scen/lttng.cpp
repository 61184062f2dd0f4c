// The LTTng pipeline: tracepoints (real code, stubbed lttng-ust) -> simulated LTTng session -> the viewer process
// (babeltrace, a stub) -> pipe -> BabeltraceTool, BabeltraceParser, CTFEvent, LttngSource (real code).
#include "bystander.h"
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_tracing/babeltrace_tool.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/lttng_provider.h>
#include <scalopus_tracing/lttng_source.h>
#include <scalopus_transport/transport_unix.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include "lttng/tracepoint.h"
#include "tracemodel.h"

using namespace scalopus;

namespace lt
{
// ---- the viewer process -----------------------------------------------------------------------------------------------
struct Line
{
  std::string text;   // without the newline
  std::string owner;  // which buffer it comes from
  int64_t s{ 0 }, w{ NEVER };  // sequence numbers: first byte written, newline written
};
struct Viewer
{
  int pid{ 0 };
  std::string file;
  std::vector<std::string> argv;
  std::vector<Line*> todo;      // complete lines to be printed
  size_t next{ 0 };             // index of the next one
  size_t taken{ 0 };            // the lines before this are being printed
  std::string unfinished;       // printed at the end, without a newline
  bool finish{ false };         // close the output after todo
  bool said_all{ false };
  bool ended{ false };
  bool blind{ false };          // end of the unfinished part was written
  size_t err_bytes{ 0 };        // written to stderr first
};
struct LWorld
{
  int64_t seq{ 0 };
  std::vector<Viewer*> viewers;
  std::function<void(Viewer*)> prepare;
  std::string session;  // what has to be viewed
};
LWorld* V;
// The documented way to view a session: through lttng if it is a session's name, or through babeltrace if it is a path.
void check_viewer(const Viewer* v)
{
  if (V->session.empty())
    return;
  const bool path = V->session.find('/') != std::string::npos;
  size_t base = v->file.rfind('/');
  if (v->file.substr(base == std::string::npos ? 0 : base + 1) != (path ? "babeltrace" : "lttng"))
    vio({ "C21" }, "to view '%s' %s is started", V->session.c_str(), v->file.c_str());
  std::string all;
  bool named = false;
  for (auto& a : v->argv)
  {
    named = named || a == V->session;
    all += a + "|";
  }
  if (!named)
    vio({ "C21" }, "'%s' has to be viewed, the viewer is started with %s", V->session.c_str(), all.c_str());
  for (const char* o : { "--clock-seconds", "--clock-gmt", "--no-delta", "lttng-live" })
    if (all.find(o) == std::string::npos)
      vio({ "C21" }, "the viewer is started without %s: %s", o, all.c_str());
}
int64_t seq() { return V->seq++; }

void print_lines(Viewer* v, int out_fd, int err_fd);
void viewer_main(const std::string& file, const std::vector<std::string>& argv)
{
  Viewer* v;
  {
    sim::Quiet q;
    v = new Viewer;
    v->pid = getpid();
    v->file = file;
    v->argv = argv;
    V->viewers.push_back(v);
    check_viewer(v);
    if (V->prepare)
      V->prepare(v);
  }
  signal(SIGPIPE, SIG_IGN);
  print_lines(v, 1, 2);
}
void print_lines(Viewer* v, int out_fd, int err_fd)
{
  for (;;)
  {
    if (err_fd >= 0 && sim::flip(1, 10))  // complaints
    {
      const std::string e(size_t(sim::range(1, 150000)), 'e');
      sim::sim_write(err_fd, e.data(), e.size());
    }
    while (!sim::wait_until([v] { return v->next < v->todo.size() || v->finish; }, SEC))
    {
    }
    if (v->next >= v->todo.size())
      break;
    // print some lines, in pieces that have nothing to do with the lines
    std::string out;
    size_t upto;
    {
      sim::Quiet q;
      const size_t n = 1 + size_t(sim::choose(std::min<size_t>(v->todo.size() - v->next, sim::flip(1, 3) ? 40 : 4)));
      upto = v->taken = v->next + n;
      for (size_t i = v->next; i < upto; i++)
      {
        v->todo[i]->s = seq();
        out += v->todo[i]->text + "\n";
      }
    }
    size_t off = 0, line = v->next;
    size_t ends = v->todo[line]->text.size() + 1;
    while (off < out.size())
    {
      size_t n = out.size() - off;
      if (sim::flip(1, 3))
        n = 1 + size_t(sim::choose(std::min<size_t>(n, 300)));
      if (sim::sim_write(out_fd, out.data() + off, n) != int(n))
      {
        sim::Quiet q;
        v->ended = true;
        return;
      }
      off += n;
      {
        sim::Quiet q;
        while (line < upto && ends <= off)
        {
          v->todo[line]->w = seq();
          line++;
          if (line < upto)
            ends += v->todo[line]->text.size() + 1;
        }
      }
      if (off < out.size() && sim::flip(1, 3))
        sim::sleep_ns(sim::range(1, 30) * MS);
    }
    {
      sim::Quiet q;
      v->next = upto;
    }
    if (sim::flip(1, 2))
      sim::sleep_ns(sim::range(1, 30) * MS);
  }
  if (!v->unfinished.empty())
    sim::sim_write(out_fd, v->unfinished.data(), v->unfinished.size());
  sim::Quiet q;
  v->ended = true;
}

std::string ctf_line(int64_t ns, const std::string& tp, const std::string& ctx, const std::string& data)
{
  char b[60];
  snprintf(b, sizeof b, "[%lld.%09lld] ", (long long)(ns / 1000000000), (long long)(ns % 1000000000));
  return std::string(b) + "host " + tp + ": { cpu_id = " + std::to_string(sim::choose(4)) + " }, { " + ctx + " }, { " + data + " }";
}
}  // namespace lt
using namespace lt;

// ---- C21: the lines ------------------------------------------------------------------------------------------------------
namespace
{
struct Listener
{
  std::shared_ptr<BabeltraceParser::EventCallback> cb;
  int64_t add_s, add_e{ NEVER }, dis_s{ NEVER }, dis_e{ NEVER };
  int busy{ 0 };
  bool must_end{ false };  // alive until everything was printed
  std::vector<std::pair<int64_t, std::string>> got;
};
struct ToolWorld
{
  std::vector<Listener*> listeners;
  int counter{ 0 };
  int64_t halt_s{ NEVER }, halt_e{ NEVER };
};
ToolWorld* TW;

std::string a_line()
{
  const int k = TW->counter++;
  const std::string id = "#" + std::to_string(k);
  switch (sim::choose(12))
  {
    case 0: return id;
    case 1: return id + std::string(size_t(sim::range(900, 1200)), 'x');
    case 2: return id + std::string(size_t(sim::range(1300, 9000)), 'y') + "[1.5] h a:b: { c = 1 }, { d = 2 }, { e = 3 }";
    case 3: return "[" + std::to_string(k) + "] " + id;
    case 4: return "[1e999] host a:b: { }, { }, { } " + id;
    case 5: return ctf_line(k, "scalopus_scope_id:scope_entry", "vpid = 99999999999999999999999, pthread_id = 1", "id = 1") + id;
    case 6: return "[warning] " + id + " {}{}{}";
    case 7: return "[1.0] h a: { = }, {}, {" + id + "}";
    case 8: return "][ " + id;
    default: return ctf_line(1000000000LL * k, "scalopus_scope_id:scope_entry", "vpid = 5, pthread_id = 7", "id = " + std::to_string(k)) + id;
  }
}
std::string trim(std::string s)
{
  while (!s.empty() && (s.back() == '\n' || s.back() == '\r'))
    s.pop_back();
  return s;
}
using OnLine = std::function<void(const CTFEvent&)>;
template <typename Add>
Listener* listen_with(const Add& add)
{
  Listener* l;
  {
    sim::Quiet q;
    l = new Listener;
    l->add_s = seq();
    TW->listeners.push_back(l);
  }
  auto cb = add([l](const CTFEvent& e) {
    {
      sim::Quiet q;
      l->busy++;
      l->got.push_back({ seq(), trim(e.line()) });
      if (l->dis_e != NEVER)
        vio({ "C21", "C17" }, "a listener is called after it was disabled");
      if (TW->halt_e != NEVER)
        vio({ "C21" }, "a listener is called after shutting down");
    }
    if (sim::flip(1, 4))
      sim::yield();
    sim::Quiet q;
    l->busy--;
  });
  sim::ev("add-listener");
  sim::Quiet q;
  l->cb = cb;
  l->add_e = seq();
  return l;
}
Listener* add_listener(BabeltraceTool& tool)
{
  return listen_with([&tool](const OnLine& f) { return tool.addCallback(f); });
}
void disable_listener(Listener* l)
{
  {
    sim::Quiet q;
    l->dis_s = seq();
  }
  l->cb->disable();
  sim::ev("disable-listener");
  sim::Quiet q;
  l->dis_e = seq();
  if (l->busy)
    vio({ "C21", "C17" }, "a listener is still running after it was disabled");
}
// judge what the listeners got of one viewer's output
void judge(Viewer* v, bool complete)
{
  std::map<std::string, size_t> index;
  for (size_t i = 0; i < v->todo.size(); i++)
    index[v->todo[i]->text] = i;
  for (Listener* l : TW->listeners)
  {
    long prev = -1, first = -1;
    for (auto& g : l->got)
    {
      auto it = index.find(g.second);
      if (it == index.end())
      {
        if (!v->unfinished.empty() && g.second == v->unfinished && &g == &l->got.back())
          continue;  // may be delivered at the end of the stream
        vio({ "C21" }, "a listener got something that is no line of the viewer: '%s'", g.second.substr(0, 80).c_str());
        continue;
      }
      const long i = long(it->second);
      if (v->todo[size_t(i)]->s > g.first)
        vio({ "C21" }, "line %ld delivered before it was printed", i);
      if (prev >= 0 && i != prev + 1)
        vio({ "C21" }, "after line %ld a listener got line %ld: lines are %s", prev, i, i > prev ? "missing" : "repeated or out of order");
      if (first < 0)
        first = i;
      prev = i;
    }
    const long n = long(v->todo.size());
    for (long i = 0; i < n; i++)
    {
      Line* x = v->todo[size_t(i)];
      if (x->s <= l->add_e)
        continue;
      if (first >= 0 && i < first)
        vio({ "C21" }, "line %ld was printed after a listener was added, but the first one it got is %ld", i, first);
      if (complete && l->must_end && i > prev)
        vio({ "C21" }, "line %ld was printed, but not delivered ('%s' was the last one)", i, l->got.empty() ? "" : l->got.back().second.substr(0, 60).c_str());
      break;
    }
    if (complete && l->must_end && !l->got.empty() && prev >= 0 && prev < n - 1)
      vio({ "C21" }, "%ld lines were printed, but line %ld was the last one delivered", n, prev);
    // a line whose successor was delivered to somebody before this one was added
    if (first >= 0)
      for (Listener* o : TW->listeners)
        for (auto& g : o->got)
        {
          auto it = index.find(g.second);
          if (it != index.end() && long(it->second) > first && g.first < l->add_s)
            vio({ "C21" }, "line %ld was delivered to a listener that was added later", first);
        }
    if (!l->got.empty())
      sim::probe("listener-got-lines");
  }
}
}  // namespace

SCENARIO(viewer_lines)
{
  V = new LWorld;
  TW = new ToolWorld;
  sim::enable(sim::F_EINTR_SELECT, 30);
  sim::enable(sim::F_EINTR_READ, 30);
  sim::enable(sim::F_SHORT_READ, 100);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 50);
  sim::enable(sim::F_TIMEJUMP, 10);
  sim::enable(sim::F_HEAPREUSE, 300);
  const bool broken = sim::flip(1, 8);  // no viewer can be started, or no thread for it
  if (broken)
  {
    static const sim::Fault why[] = { sim::F_FORK_FAIL, sim::F_EXEC_FAIL, sim::F_THREAD_FAIL };
    const sim::Fault w = why[sim::choose(3)];
    sim::enable_exact(w, w == sim::F_THREAD_FAIL ? 500 : 1000);
  }
  sim::set_exec_handler(viewer_main);
  const int pid = sim::new_proc("viewer");
  const bool high_fds = sim::flip(1, 6);
  if (high_fds)
    sim::set_fd_range(pid, 1000 + int(sim::choose(40)), 4000);
  const int rounds = 1 + int(sim::flip(1, 4));
  static std::shared_ptr<BabeltraceTool>* tool;
  tool = new std::shared_ptr<BabeltraceTool>;
  const int fds0 = sim::open_fds(pid);
  const int threads0 = sim::live_threads(pid);
  sim::run_as(pid, [&] { *tool = std::make_shared<BabeltraceTool>(); });
  for (int round = 0; round < rounds; round++)
  {
    TW->listeners.clear();
    TW->halt_s = TW->halt_e = NEVER;
    V->viewers.clear();
    // the viewer process fills this in when it starts
    static Viewer* plan;
    plan = new Viewer;
    {
      const int m = int(sim::choose(12));
      for (int k = 0; k < m; k++)
      {
        Line* l = new Line;
        l->text = a_line();
        plan->todo.push_back(l);
      }
    }
    static bool started;
    started = false;
    V->prepare = [](Viewer* v) {
      v->todo = plan->todo;
      started = true;
    };
    bool ok = true;
    sim::run_as(pid, [&] {
      if (sim::flip(1, 2))
        (*tool)->setLogger([](const std::string&) { sim::yield(); });
      try
      {
        static const char* const sessions[] = { "session", "net://localhost/host/x/session", "a session's \"name\" \\ %s",
                                                "net://local host/host/x/odd 'session'", "/", "-e" };
        std::string* s;
        {
          sim::Quiet q;
          V->session = sessions[sim::choose(6)];
          s = new std::string(V->session);
        }
        (*tool)->init(*s);
      }
      catch (const std::exception&)
      {
        ok = false;  // it says so
      }
      if (sim::flip(1, 2))
        (*tool)->setLogger([](const std::string&) {});
    });
    sim::ev("init");
    const bool hasty = sim::flip(1, 6);
    std::vector<sim::Task> tasks;
    std::vector<Listener*> keep;
    bool complete = false;
    int ending = 0;
    if (!hasty)
    {
      const int n = int(sim::choose(3));
      for (int k = 0; k < n; k++)
        sim::run_as(pid, [&] { keep.push_back(add_listener(**tool)); });
      const int churn = int(sim::choose(3));
      for (int k = 0; k < churn; k++)
        tasks.push_back(sim::spawn(pid, "session", [] {
          const int m = 1 + int(sim::choose(3));
          for (int j = 0; j < m; j++)
          {
            if (sim::flip(1, 2))
              sim::sleep_ns(sim::range(1, 50) * MS);
            Listener* l = add_listener(**tool);
            if (sim::flip(2, 3))
              sim::sleep_ns(sim::range(1, 50) * MS);
            disable_listener(l);
          }
        }));
      for (auto& t : tasks)
        t.join();
    }
    const bool last = round == rounds - 1;
    if (!hasty && !broken && last)
    {
      sim::faults_off();
      sim::wait_until([] { return started; }, 30 * SEC);
      Viewer* v = V->viewers.empty() ? nullptr : V->viewers.back();
      if (!v)
        vio({ "C21" }, "the viewer was not started");
      else
      {
        const int n = int(sim::choose(3));
        for (int k = 0; k < n; k++)
          sim::run_as(pid, [&] { keep.push_back(add_listener(**tool)); });
        {
          sim::Quiet q;
          const int m = int(sim::choose(8));
          for (int k = 0; k < m; k++)
          {
            Line* l = new Line;
            l->text = a_line();
            v->todo.push_back(l);
          }
          ending = int(sim::choose(4));
          if (ending == 1 || ending == 3)
            v->unfinished = "unfinished";
          if (ending >= 2)
            v->finish = true;
        }
        sim::wait_until([v] { return v->next >= v->todo.size() && (!v->finish || v->ended); }, 60 * SEC);
        sim::sleep_ms(1000);
        complete = true;
        {
          sim::Quiet q;
          for (Listener* l : keep)
            l->must_end = true;
          judge(v, true);
          sim::probe(ending >= 2 ? "end-of-stream" : "silence");
        }
        if (ending == 1)
        {
          // the beginning of a line, and then nothing
          {
            sim::Quiet q;
            v->finish = true;
          }
          sim::sleep_ms(50);
        }
        if (ending == 0 && sim::flip(1, 3))
        {
          sim::kill_proc(v->pid);
          sim::sleep_ms(100);
        }
      }
    }
    else if (!hasty)
      sim::sleep_ns(sim::range(0, 60) * MS);
    // take it down, perhaps while others use it
    for (Listener* l : keep)
      if (sim::flip(1, 2))
        sim::run_as(pid, [&] { disable_listener(l); });
    std::vector<sim::Task> late;
    if (sim::flip(1, 4))
      late.push_back(sim::spawn(pid, "late", [] {
        Listener* l = add_listener(**tool);
        sim::yield();
        disable_listener(l);
      }));
    {
      sim::Deadline d("C21", "shutting down the trace viewer", 60 * SEC);
      sim::run_as(pid, [&] { (*tool)->halt(); });
      sim::Quiet q;
      TW->halt_e = seq();
    }
    for (auto& t : late)
      t.join();
    sim::ev("halt");
    sim::sleep_ms(20);
    {
      sim::Quiet q;
      for (Viewer* v : V->viewers)
        if (sim::alive(v->pid))
          vio({ "C21" }, "the viewer process runs on after shutting down");
      if (!V->viewers.empty() && !complete)
        judge(V->viewers.back(), false);
    }
    if (sim::flip(1, 4))
      sim::run_as(pid, [&] { (*tool)->halt(); });
  }
  sim::Deadline d("C21", "destroying the trace viewer", 60 * SEC);
  sim::run_as(pid, [&] { tool->reset(); });
  sim::Quiet q;
  if (sim::live_threads(pid) != threads0)
    vio({ "C21" }, "threads are left after destroying the tool");
  if (sim::open_fds(pid) != fds0)
    vio({ "C21" }, "descriptors are left after destroying the tool: %s", sim::fd_summary(pid).c_str());
}
#include "parser_direct.inc"
#include "lttng_trace.inc"
