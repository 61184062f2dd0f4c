// C12: the ring buffer between one pushing and one popping thread (plus an onlooker).
namespace
{
struct Elem
{
  int64_t id{ -1 };
  std::unique_ptr<std::vector<int64_t>> more;
  static int live;
  Elem() = default;
  explicit Elem(int64_t i) : id(i), more(new std::vector<int64_t>{ i, ~i }) {}
  Elem(Elem&&) = default;
  Elem& operator=(Elem&&) = default;
};
void check_elem(const Elem& e, int64_t want)
{
  sim::Quiet q;
  if (e.id != want || !e.more || e.more->size() != 2 || (*e.more)[0] != want || (*e.more)[1] != ~want)
    vio({ "C12" }, "popped element %lld (%s) where element %lld was to come", (long long)e.id, e.more ? "with its data" : "without its data",
        (long long)want);
}
template <class Container>
void ring_run(Container&& c, size_t N)
{
  using Ring = SPSCRingBuffer<typename std::decay<Container>::type>;
  Ring ring(std::move(c));
  struct
  {
    int64_t push_s = 0, push_e = 0;  // pushes that started / were accepted and returned
    int64_t pop_s = 0, pop_e = 0;    // elements popped by calls that returned; upper bound of what running calls take
    bool popping = false, pushing = false;
    bool done = false;
  } st;
  const int total = 1 + int(sim::choose(4 * N + 6));
  const int style = int(sim::choose(3));
  auto rest = [](int p) {
    switch (sim::choose(6))
    {
      case 0: sim::sleep_ns(sim::range(0, 3) * 1000); break;
      case 1: sim::yield(); break;
      case 2:
        if (p)
          sim::sleep_ns(sim::range(0, 20) * 1000);
        break;
      default: break;
    }
  };
  std::vector<sim::Task> tasks;
  const int pid = sim::new_proc("p");
  tasks.push_back(sim::spawn(pid, "push", [&] {
    int64_t next = 0;
    for (int k = 0; k < total * 2 && next < total; k++)
    {
      rest(style == 1);
      int64_t popped_before;
      {
        sim::Quiet q;
        st.pushing = true;
        st.push_s = next + 1;
        popped_before = st.pop_e;
      }
      sim::ev("push");
      Elem e(next);
      const bool ok = ring.push(std::move(e));
      sim::Quiet q;
      st.pushing = false;
      if (ok)
      {
        if (next + 1 - (st.popping ? INT64_C(1) << 40 : st.pop_e) > int64_t(N) - 1)
          vio({ "C12" }, "element %lld was accepted by a full ring of %zu", (long long)next, N);
        next++;
        st.push_e = next;
      }
      else
      {
        sim::probe("push-refused");
        st.push_s = next;
        if (next - popped_before < int64_t(N) - 1)
          vio({ "C12" }, "push was refused with at most %lld elements in a ring of %zu", (long long)(next - popped_before), N);
        if (e.id != next || !e.more)
          vio({ "C12" }, "a refused push consumed its element");
      }
      if (sim::flip(1, 4))
      {
        const int64_t before = st.pop_e;
        const size_t s = ring.size();
        const bool em = ring.empty();
        if (s > N - 1 || int64_t(s) > next - before)
          vio({ "C12" }, "size is %zu, but only %lld can be in a ring of %zu", s, (long long)(next - before), N);
        (void)em;
      }
    }
    st.done = true;
  }));
  tasks.push_back(sim::spawn(pid, "pop", [&] {
    int64_t next = 0;
    std::vector<Elem> out;
    for (int k = 0; k < total * 6; k++)
    {
      rest(style == 2);
      int64_t pushed_before;
      const bool bulk = sim::flip(1, 2);
      size_t max = 1;
      bool done;
      {
        sim::Quiet q;
        pushed_before = st.push_e;
        st.popping = true;
        done = st.done;
        if (bulk)
        {
          max = size_t(sim::choose(N + 3));
          if (sim::flip(1, 8))
            max = SIZE_MAX;
        }
      }
      sim::ev("pop");
      size_t got = 0;
      if (bulk)
      {
        out.clear();
        got = ring.pop_into(std::back_inserter(out), max);
        sim::Quiet q;
        if (got != out.size() || got > max)
          vio({ "C12" }, "pop_into(max %zu) reports %zu elements and wrote %zu", max, got, out.size());
        for (auto& e : out)
          check_elem(e, next++);
        if (got > 1)
          sim::probe("bulk-pop");
      }
      else
      {
        Elem e;
        got = ring.pop(e) ? 1 : 0;
        if (got)
          check_elem(e, next++);
      }
      sim::Quiet q;
      st.popping = false;
      const int64_t avail = pushed_before - st.pop_e;  // at the start
      st.pop_e = next;
      if (next > st.push_s)
        vio({ "C12" }, "%lld elements were popped but only %lld pushed", (long long)next, (long long)st.push_s);
      if (int64_t(got) < std::min(avail, int64_t(std::min(max, size_t(1) << 40))))
        vio({ "C12" }, "only %zu of %lld available elements were popped (max %zu)", got, (long long)avail, max);
      if (sim::flip(1, 4))
      {
        const int64_t before = st.push_e;
        const size_t s = ring.size();
        const bool em = ring.empty();
        if (s > N - 1 || int64_t(s) < before - next || int64_t(s) > st.push_s - next)
          vio({ "C12" }, "size is %zu for the popping thread, %lld..%lld are in the ring", s, (long long)(before - next), (long long)(st.push_s - next));
        if (em && before > next)
          vio({ "C12" }, "the ring reports to be empty with %lld elements in it", (long long)(before - next));
        if (!em && st.push_s == next)
          vio({ "C12" }, "the ring reports not to be empty although all elements were popped");
      }
      if (done && got == 0 && max > 0)
        break;
    }
    sim::Quiet q;
    sim::probe("drained");
  }));
  if (sim::flip(1, 3))
    tasks.push_back(sim::spawn(pid, "look", [&] {
      for (int k = 0; k < 5; k++)
      {
        sim::sleep_ns(sim::range(0, 5) * 1000);
        const size_t s = ring.size();
        const bool em = ring.empty();
        sim::Quiet q;
        (void)em;
        if (s > N - 1)
          vio({ "C12" }, "size is %zu in a ring of %zu", s, N);
      }
    }));
  for (auto& t : tasks)
    t.join();
  // nothing may be left behind
  int64_t next = st.pop_e;
  Elem e;
  while (ring.pop(e))
    check_elem(e, next++);
  if (next != st.push_e)
    vio({ "C12" }, "%lld elements were pushed but %lld popped", (long long)st.push_e, (long long)next);
  if (!ring.empty() || ring.size() != 0)
    vio({ "C12" }, "a drained ring reports elements");
  // and it works like a fresh one
  for (size_t k = 0; k < N - 1; k++)
    if (!ring.push(Elem(next + int64_t(k))))
      vio({ "C12" }, "push was refused with %zu elements in a ring of %zu", k, N);
  if (ring.push(Elem(99999)))
    vio({ "C12" }, "a full ring of %zu accepted an element", N);
  if (ring.size() != N - 1 || ring.empty() != (N == 1))
    vio({ "C12" }, "a full ring of %zu reports size %zu", N, ring.size());
}
}  // namespace

SCENARIO(ring)
{
  sim::enable(sim::F_STALL, 10);
  sim::enable(sim::F_PAUSE, 4);
  const size_t N = size_t(sim::range(1, 7));
  if (sim::flip(1, 4))
  {
    ring_run(std::array<Elem, 4>{}, 4);
    return;
  }
  ring_run(std::vector<Elem>(N), N);
}
