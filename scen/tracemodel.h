// What traced programs do and how a recording of it is judged; shared by the scenarios with native and LTTng tracepoints.
#pragma once
#include <pthread.h>
#include <time.h>
#include <array>
#include <atomic>
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include "common.h"
#include <scalopus_interface/endpoint.h>
#include <scalopus_interface/transport.h>
#include "producer.h"
#include "sim.h"

using nlohmann::json;

namespace
{
constexpr int64_t NEVER = INT64_MAX;
constexpr int OFF = 1, ON = 2;

int64_t realtime()
{
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

struct Write
{
  int64_t s, e;
  int mask;
  bool weak;  // may not have happened at all
};
struct Reg  // a boolean that several parties write; what may a reader have seen?
{
  std::vector<Write> w{ { -1, -1, ON, false } };
  int possible(int64_t a, int64_t b, const Write* own = nullptr) const
  {
    int m = 0;
    for (auto& x : w)
    {
      if (x.s > b)
        continue;
      bool hidden = false;
      for (auto& y : w)
        if (!y.weak && y.s > x.e && y.e < a)
          hidden = true;
      if (own && &x != own && x.e < own->s)
        hidden = true;
      if (!hidden)
        m |= x.mask;
    }
    return m;
  }
};

struct Exp  // one event that a tracepoint may or must have produced
{
  char ph;  // B E i C
  char level;
  std::string name, series;
  int64_t value;
  int64_t t0, t1;  // real time
  int64_t s, e;    // sequence
  int verdict;     // filled in later: 0 must not, 1 may, 2 must
};
struct Thread  // one thread of a traced process
{
  int pid;
  unsigned long tid;
  int64_t born{ 0 };
  int64_t registered_s{ NEVER };  // first use of the library
  int64_t registered{ NEVER };    // ... returned
  int64_t exit_s{ NEVER }, exit_e{ NEVER };
  Reg reg;
  std::vector<Exp> exp;
  std::vector<Write> names;                 // mask is an index into name_values
  std::vector<std::string> name_values;
};
struct Proc
{
  int pid{ 0 };
  const ProducerApi* api{ nullptr };
  void* h{ nullptr };
  std::vector<TraceDef> defs;
  Reg reg;
  bool victim{ false };
  std::vector<Write> names;
  std::vector<std::string> name_values;
};
struct RemoteSet  // a remote change of thread states that may still be applied
{
  int pid;
  int64_t a;
  std::map<unsigned long, bool> threads;
  std::vector<std::pair<Thread*, size_t>> touched;
  void add(Thread* t)
  {
    auto it = threads.find(t->tid);
    if (t->pid != pid || it == threads.end())
      return;
    t->reg.w.push_back({ a, NEVER, it->second ? ON : OFF, true });
    touched.push_back({ t, t->reg.w.size() - 1 });
  }
};
struct World
{
  std::vector<RemoteSet*> inflight;
  int64_t seq{ 0 };
  std::vector<Proc> procs;
  std::vector<Thread*> threads;
  int64_t next_value{ 1 };
  size_t ring{ 0 };  // 0: default
  bool lttng{ false };
};
World* W;

int64_t tick() { return W->seq++; }

void tracing_faults(bool clock = false)
{
  sim::enable(sim::F_EINTR_SELECT, 20);
  sim::enable(sim::F_EINTR_READ, 30);
  sim::enable(sim::F_EINTR_SEND, 30);
  sim::enable(sim::F_SHORT_READ, 50);
  sim::enable(sim::F_SHORT_SEND, 50);
  sim::enable(sim::F_STALL, 4);
  sim::enable(sim::F_PAUSE, 4);
  sim::enable(sim::F_OVERSLEEP, 100);
  sim::enable(sim::F_TIMEJUMP, 20);
  sim::enable(sim::F_TIDREUSE, 600);
  sim::enable(sim::F_HEAPREUSE, 300);
  if (clock)
    sim::enable(sim::F_CLOCKJUMP, 5);
}

// serves names, but never sensible ones
class LiarMapping : public scalopus::Endpoint
{
public:
  std::string getName() const override { return "scope_tracing"; }
  bool handle(scalopus::Transport&, const Bytes&, Bytes& out) override
  {
    sim::fault_count(sim::F_GARBAGE);
    json j = json::object();
    switch (sim::choose(7))
    {
      case 0: out = Bytes{ 1, 2, 3 }; return true;
      case 1: break;
      case 2: j["mapping"] = "x"; break;
      case 3: j["mapping"] = json::array({ json::array({ "a", 5 }) }); break;
      case 4: j["mapping"] = json::array({ json::array({ 77, json::array({ json::array({ 1 }) }) }) }); break;
      case 5: throw std::runtime_error("no names");
      default: return false;
    }
    out = json::to_bson(j);
    return true;
  }
};

void start_proc(int i, unsigned what)
{
  Proc p;
  p.api = W->lttng ? (i == 0 ? producer_api_3() : producer_api_4()) : i == 0 ? producer_api_1() : producer_api_2();
  p.pid = sim::new_proc(i == 0 ? "app1" : "app2");
  sim::run_as(p.pid, [&] {
    if (W->ring)
      p.api->set_ring(W->ring);
    p.h = p.api->serve(what);
  });
  {
    sim::Quiet q;
    p.defs = p.api->defs();
  }
  W->procs.push_back(p);
}

// ---- programs of traced threads ---------------------------------------------------------------------------------------
int64_t pick_value()
{
  switch (sim::choose(8))
  {
    case 0: return INT64_MIN;
    case 1: return INT64_MAX;
    case 2: return 0;
    case 3: return -1;
    case 4: return int64_t(sim::choose(1000)) - 500;
    case 5: return INT64_C(9007199254740993) + int64_t(sim::choose(3));  // not representable as a double
    default: return W->next_value++;
  }
}
struct Unwind
{
};
struct Program
{
  static constexpr size_t NONE = ~size_t(0);
  Proc* p;
  Thread* t;
  bool config;      // may change the configuration
  bool counters;    // only counters
  bool unique;      // values are unique

  size_t begin(char ph, const TraceDef& d, int64_t v)
  {
    Exp e;
    e.ph = ph;
    e.level = d.kind;
    e.name = d.name;
    e.series = d.series;
    e.value = v;
    e.t0 = realtime();
    e.t1 = NEVER;
    e.s = tick();
    e.e = NEVER;
    if (t->registered_s == NEVER)
      t->registered_s = e.s;
    t->exp.push_back(e);
    return t->exp.size() - 1;
  }
  void end(size_t i)
  {
    t->exp[i].t1 = realtime();
    t->exp[i].e = tick();
    if (t->registered == NEVER)
      t->registered = t->exp[i].e;
  }
  void pause()
  {
    switch (sim::choose(6))
    {
      case 0: return;
      case 1: return sim::sleep_ns(1000);
      case 2: return sim::sleep_ns(sim::range(1, 40) * 100);
      case 3: return sim::sleep_ns(sim::range(1, 15) * MS);
      case 4: return sim::sleep_ns(2000);
      default: return sim::yield();
    }
  }
  void emit(int which, int depth, int budget)
  {
    const TraceDef* d;
    int64_t v = 0;
    size_t i;
    {
      sim::Quiet q;
      d = &p->defs[size_t(which)];
      if (d->kind == 'C')
        v = unique ? W->next_value++ : pick_value();
      i = begin(d->kind == 'S' ? 'B' : d->kind == 'C' ? 'C' : 'i', *d, v);
    }
    sim::ev("tracepoint");
    if (d->kind == 'S')
    {
      size_t j = NONE;
      bool thrown = false;
      try
      {
        p->api->emit(which, v, [&] {
          {
            sim::Quiet q;
            end(i);
          }
          try
          {
            run(depth + 1, budget);
          }
          catch (const Unwind&)
          {
            sim::Quiet q;
            if (which != 1)  // the only scope that does not end with its block
              j = begin('E', *d, 0);
            throw;
          }
          sim::Quiet q;
          j = begin('E', *d, 0);
        });
      }
      catch (const Unwind&)
      {
        thrown = true;
      }
      {
        sim::Quiet q;
        if (j != NONE)
          end(j);
      }
      if (thrown && depth > 0 && sim::flip(1, 2))
        throw Unwind();
    }
    else
    {
      p->api->emit(which, v, [] {});
      sim::Quiet q;
      end(i);
    }
  }
  Reg& reg(bool process) { return process ? p->reg : t->reg; }
  void run(int depth, int budget)
  {
    for (int k = 0; k < budget; k++)
    {
      pause();
      if (depth > 0 && sim::flip(1, 30))
      {
        sim::probe("left-by-exception");
        throw Unwind();
      }
      uint64_t c = sim::choose(config ? 10 : 6);
      if (c < 6)
      {
        int which = counters ? 7 + int(sim::choose(9)) : int(sim::choose(18));
        if (p->defs[size_t(which)].kind == 'S' && depth >= 3)
          which = 4 + int(sim::choose(3));
        emit(which, depth, depth >= 2 ? 1 : int(sim::choose(3)));
      }
      else if (c < 8 && depth < 3)
      {
        const bool process = sim::flip(1, 3), state = sim::flip(1, 2);
        size_t a, b;
        int prev;
        {
          sim::Quiet q;
          Reg& r = reg(process);
          if (t->registered_s == NEVER)
            t->registered_s = W->seq;
          r.w.push_back({ tick(), NEVER, state ? ON : OFF, false });
          a = r.w.size() - 1;
        }
        sim::ev("scoped-setting");
        bool thrown = false;
        try
        {
        p->api->scoped(process, state, [&] {
          {
            sim::Quiet q;
            Reg& r = reg(process);
            r.w[a].e = tick();
            if (t->registered == NEVER && !process)
              t->registered = r.w[a].e;
            // what was it before? Anything but this very write.
            Reg other = r;
            other.w.erase(other.w.begin() + long(a));
            prev = other.possible(r.w[a].s, r.w[a].e);
          }
          try
          {
            run(depth + 1, 1 + int(sim::choose(2)));
          }
          catch (const Unwind&)
          {
            thrown = true;
          }
          {
            sim::Quiet q;
            Reg& r = reg(process);
            r.w.push_back({ tick(), NEVER, prev, false });
            b = r.w.size() - 1;
          }
          if (thrown)
            throw Unwind();
        });
        }
        catch (const Unwind&)
        {
        }
        {
          sim::Quiet q;
          reg(process).w[b].e = tick();
        }
        if (thrown && depth > 0 && sim::flip(1, 2))
          throw Unwind();
      }
      else if (c == 8)
      {
        const bool process = sim::flip(1, 3), state = !sim::flip(1, 2);
        size_t a;
        {
          sim::Quiet q;
          if (t->registered_s == NEVER)
            t->registered_s = W->seq;
          reg(process).w.push_back({ tick(), NEVER, state ? ON : OFF, false });
          a = reg(process).w.size() - 1;
        }
        bool was = p->api->set_state(process, state);
        sim::Quiet q;
        Reg& r = reg(process);
        r.w[a].e = tick();
        if (t->registered == NEVER && !process)
          t->registered = r.w[a].e;
        Reg other = r;
        other.w.erase(other.w.begin() + long(a));
        if (!(other.possible(r.w[a].s, r.w[a].e) & (was ? ON : OFF)))
          vio({ "C14" }, "setting the state of a %s to %d returned %d as its previous state", process ? "process" : "thread", state, was);
      }
      else
      {
        const bool process = sim::flip(1, 3);
        int64_t a;
        {
          sim::Quiet q;
          a = tick();
          if (t->registered_s == NEVER)
            t->registered_s = a;
        }
        bool is = p->api->get_state(process);
        sim::Quiet q;
        int64_t b = tick();
        if (t->registered == NEVER && !process)
          t->registered = b;
        if (!(reg(process).possible(a, b) & (is ? ON : OFF)))
          vio({ "C14" }, "the state of a %s is %d, which was not last set", process ? "process" : "thread", is);
      }
    }
  }
};

// a thread of a traced process; it may run several short-lived ones, one after the other
sim::Task traced_thread(size_t pi, bool config, bool counters, bool unique, int budget)
{
  const int pid = W->procs[pi].pid;
  return sim::spawn(pid, "main", [pi, pid, config, counters, unique, budget] {
    auto body = [pi, pid, config, counters, unique](int n) {
      Thread* t;
      {
        sim::Quiet q;
        t = new Thread;
        t->pid = pid;
        t->tid = static_cast<unsigned long>(pthread_self());
        t->born = tick();
        W->threads.push_back(t);
        for (auto* r : W->inflight)
          r->add(t);
      }
      Program pr{ &W->procs[pi], t, config, counters, unique };
      pr.run(0, n);
      sim::Quiet q;
      t->exit_s = tick();
      return t;
    };
    const int kids = int(sim::choose(4));
    for (int k = 0; k < kids; k++)
    {
      Thread* t = nullptr;
      sim::Task c = sim::spawn(pid, "kid", [&t, body] { t = body(1 + int(sim::choose(3))); });
      c.join();
      sim::Quiet q;
      t->exit_e = tick();
      sim::probe("thread-exited");
    }
    body(budget);
  });
}

// what breaks C13 in a recording of LTTng events breaks C22
template <class... A>
void rep(std::initializer_list<const char*> props, const char* fmt, A... a)
{
  for (auto x : props)
  {
    if (W->lttng && !strcmp(x, "C13"))
      x = "C22";
    vio({ x }, fmt, a...);
  }
}

// ---- verification of recordings ---------------------------------------------------------------------------------------
struct Found
{
  const json* j;
  const Exp* e;
};
bool same_event(const json& r, const Exp& e, bool names_known)
{
  if (r.at("ph").get<std::string>() != std::string(1, e.ph))
    return false;
  if (e.ph == 'i' && r.value("s", "") != std::string(1, e.level))
    return false;
  const std::string n = r.at("name").get<std::string>();
  if (n != e.name && (names_known || n.compare(0, 8, "Unknown ") != 0))
    return false;
  const double ts = r.at("ts").get<double>();
  if (ts < double(e.t0) / 1e3 - 0.6 || (e.t1 != NEVER && ts > double(e.t1) / 1e3 + 0.6))
    return false;
  if (e.ph == 'C' && n == e.name)
  {
    auto a = r.find("args");
    if (a == r.end() || !a->is_object() || !a->count(e.series) || !(*a)[e.series].is_number_integer() ||
        (*a)[e.series].get<int64_t>() != e.value)
      return false;
  }
  return true;
}
std::string show(const json& r)
{
  return r.dump(-1, ' ', false, json::error_handler_t::replace).substr(0, 300);
}
std::string show(const Exp& e)
{
  char b[300];
  snprintf(b, sizeof b, "%c '%s' series '%s' value %lld at %lld..%lld", e.ph, e.name.c_str(), e.series.c_str(), (long long)e.value,
           (long long)e.t0, (long long)e.t1);
  return b;
}

// Is `rec` (events of one process and thread id, in order) explained by what its threads did? Fills matches.
// may_only: everything may be missing. Returns an empty string or what is wrong.
std::string explain(const std::vector<const json*>& rec, const std::vector<const Exp*>& exp, bool may_only, bool names_known, std::vector<Found>* out, std::set<int>* unsure = nullptr)
{
  const size_t R = rec.size(), E = exp.size();
  // ok[i][j]: exp[i..] explains rec[j..]
  std::vector<std::vector<char>> ok(E + 1, std::vector<char>(R + 1, 0));
  ok[E][R] = 1;
  size_t best = 0;
  for (size_t i = E; i-- > 0;)
    for (size_t j = R + 1; j-- > 0;)
    {
      const Exp& e = *exp[i];
      bool v = false;
      if (j < R && e.verdict != 0 && ok[i + 1][j + 1] && same_event(*rec[j], e, names_known))
        v = true;
      if (!v && (may_only || e.verdict != 2) && ok[i + 1][j])
        v = true;
      ok[i][j] = v;
    }
  (void)best;
  if (ok[0][0])
  {
    if (out)
      for (size_t i = 0, j = 0; i < E && j < R; i++)
        if (exp[i]->verdict != 0 && ok[i + 1][j + 1] && same_event(*rec[j], *exp[i], names_known))
        {
          if ((may_only || exp[i]->verdict != 2) && ok[i + 1][j] && unsure)
            unsure->insert(rec[j]->at("pid").get<int>());  // more than one explanation
          out->push_back({ rec[j], exp[i] });
          j++;
        }
    return "";
  }
  // explain the failure: how far does a forward match get?
  std::vector<std::vector<char>> f(E + 1, std::vector<char>(R + 1, 0));
  f[0][0] = 1;
  size_t bi = 0, bj = 0;
  for (size_t i = 0; i <= E; i++)
    for (size_t j = 0; j <= R; j++)
      if (f[i][j])
      {
        if (i + j >= bi + bj)
        {
          bi = i;
          bj = j;
        }
        if (i < E && j < R && exp[i]->verdict != 0 && same_event(*rec[j], *exp[i], names_known))
          f[i + 1][j + 1] = 1;
        if (i < E && (may_only || exp[i]->verdict != 2))
          f[i + 1][j] = 1;
      }
  std::string m = "of " + std::to_string(E) + " expected and " + std::to_string(R) + " recorded events, after " + std::to_string(bi) + "/" +
                  std::to_string(bj) + ": next expected " + (bi < E ? show(*exp[bi]) + (exp[bi]->verdict == 2 ? " (must)" : exp[bi]->verdict ? " (may)" : " (must not)") : "nothing") +
                  ", next recorded " + (bj < R ? show(*rec[bj]) : "nothing");
  return m;
}

struct Check
{
  bool may_only{ false };      // this recording does not cover everything
  bool names_known{ true };    // all processes were reachable when it was finished
  std::set<int> dead;          // ... except these
  int64_t required_from{ 0 };  // events that started before this may be missing
  int64_t not_after{ NEVER };  // events that started after this sequence number cannot be in it
  bool counters{ true };
  const char* what{ "recording" };
};

void verify(const std::vector<json>& res, const Check& c)
{
  std::map<std::pair<int, unsigned long>, std::vector<const json*>> by;
  double last = -1;
  for (auto& r : res)
  {
    if (!r.is_object() || !r.count("ph") || !r.count("ts") || !r.count("pid") || !r.count("tid") || !r.count("name"))
    {
      rep({ "C13" }, "incomplete event in the %s: %s", c.what, show(r).c_str());
      return;
    }
    by[{ r.at("pid").get<int>(), r.at("tid").get<unsigned long>() }].push_back(&r);
    double ts = r.at("ts").get<double>();
    if (ts < last)
      rep({ "C16", "C13" }, "events of the %s are not ordered by time: %s", c.what, show(r).c_str());
    last = ts;
  }
  std::map<std::pair<int, unsigned long>, std::vector<const Exp*>> want;
  for (Thread* t : W->threads)
  {
    auto& v = want[{ t->pid, t->tid }];
    const Proc* p = nullptr;
    for (auto& x : W->procs)
      if (x.pid == t->pid)
        p = &x;
    for (auto& e : t->exp)
    {
      int pm = p->reg.possible(e.s, e.e), tm = t->reg.possible(e.s, e.e);
      e.verdict = pm == ON && tm == ON ? 2 : pm == OFF || tm == OFF ? 0 : 1;
      if (e.verdict == 2 && e.e == NEVER)
        e.verdict = 1;
      if (e.verdict == 2 && e.s < c.required_from)
        e.verdict = 1;
      if (e.s > c.not_after)
        e.verdict = 0;
      v.push_back(&e);
    }
  }
  std::vector<Found> found;
  std::set<int> unsure;  // processes whose events can be explained in several ways
  for (auto& k : by)
    if (!want.count(k.first))
      rep({ "C13" }, "the %s has events of process %d thread %lx, which does not exist, e.g. %s", c.what, k.first.first, k.first.second,
          show(*k.second[0]).c_str());
  for (auto& k : want)
  {
    const bool dead = c.dead.count(k.first.first) != 0;
    const bool may = c.may_only || dead, known = c.names_known && !dead;
    auto& rec = by[k.first];
    if (W->ring && !may)
    {
      // full buffers may refuse events; each one has a unique value, so find them one by one
      size_t delivered = 0, j = 0;
      for (auto* e : k.second)
      {
        if (j < rec.size() && same_event(*rec[j], *e, known))
        {
          found.push_back({ rec[j], e });
          j++;
          delivered++;
        }
        else if (delivered + 1 < W->ring)
        {
          rep({ "C13" }, "event %s of process %d thread %lx is missing although its buffer of %zu was not full", show(*e).c_str(), k.first.first,
              k.first.second, W->ring);
          return;
        }
        else
          sim::probe("event-refused");
      }
      if (j < rec.size())
        rep({ "C13" }, "unexpected, repeated or misplaced event in the %s: %s", c.what, show(*rec[j]).c_str());
      continue;
    }
    std::string m = explain(rec, k.second, may, known, &found, &unsure);
    if (m.empty())
      continue;
    // which promise is broken?
    if (known && explain(rec, k.second, may, false, nullptr).empty())
    {
      rep({ "C15", "C13" }, "an event of process %d, which answers, has no name in the %s: %s", k.first.first, c.what, m.c_str());
      continue;
    }
    std::vector<Exp> relaxed;
    std::vector<const Exp*> rp;
    for (auto* e : k.second)
      relaxed.push_back(*e);
    for (auto& e : relaxed)
    {
      e.verdict = 1;
      rp.push_back(&e);
    }
    const bool config = explain(rec, rp, true, known, nullptr).empty();
    rep({ "C13", config ? "C14" : "C13" }, "process %d thread %lx in the %s: %s", k.first.first, k.first.second, c.what, m.c_str());
    if (!config)
      rep({ "C16", "C15" }, "process %d thread %lx in the %s: %s", k.first.first, k.first.second, c.what, m.c_str());
  }
  if (!c.counters)
    return;
  // counters, per process and name, in order of time
  std::map<std::pair<int, std::string>, std::vector<Found>> cnt;
  for (auto& f : found)
    if (f.e->ph == 'C' && f.j->at("name") == f.e->name)
      cnt[{ f.j->at("pid").get<int>(), f.e->name }].push_back(f);
  for (auto& k : cnt)
  {
    auto& v = k.second;
    if (unsure.count(k.first.first))
    {
      sim::probe("counter-ambiguous");
      continue;
    }
    std::set<std::string> all;
    for (auto& f : v)
      all.insert(f.e->series);
    for (auto& f : v)
    {
      const double T = f.j->at("ts").get<double>();
      auto& args = f.j->at("args");
      for (auto it = args.begin(); it != args.end(); ++it)
        if (!all.count(it.key()))
          rep({ "C16" }, "counter event %s shows series '%s', which was not recorded for it", show(*f.j).c_str(), it.key().c_str());
      for (auto& s : all)
      {
        if (!args.count(s))
        {
          rep({ "C16" }, "counter event %s lacks series '%s'", show(*f.j).c_str(), s.c_str());
          continue;
        }
        const int64_t got = args.at(s).get<int64_t>();
        if (s == f.e->series)
        {
          if (got != f.e->value)
            rep({ "C16" }, "counter event %s: series '%s' was set to %lld", show(*f.j).c_str(), s.c_str(), (long long)f.e->value);
          continue;
        }
        double before = -1, after = -1;
        std::set<int64_t> tie, prev, next;
        for (auto& g : v)
        {
          if (g.e->series != s)
            continue;
          const double t = g.j->at("ts").get<double>();
          if (t == T)
            tie.insert(g.e->value);
          else if (t < T && t >= before)
          {
            if (t > before)
              prev.clear();
            before = t;
            prev.insert(g.e->value);
          }
          else if (t > T && (after < 0 || t <= after))
          {
            if (after < 0 || t < after)
              next.clear();
            after = t;
            next.insert(g.e->value);
          }
        }
        std::set<int64_t> allowed = tie;
        if (prev.empty())
          allowed.insert(next.begin(), next.end());
        allowed.insert(prev.begin(), prev.end());
        if (tie.empty() && !prev.empty())
          sim::probe("counter-carried");
        if (prev.empty() && !next.empty())
          sim::probe("counter-future");
        if (!allowed.count(got))
          rep({ "C16" }, "counter event %s: series '%s' shows %lld instead of %lld", show(*f.j).c_str(), s.c_str(), (long long)got,
              (long long)*allowed.begin());
      }
    }
  }
}

}  // namespace
