// Public interface of the deterministic simulator, used by the scenarios (which are compiled with instrumentation).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
// ---- fault kinds -----------------------------------------------------------------------------------------------
enum Fault : int
{
  F_EINTR_SELECT,
  F_EINTR_READ,
  F_EINTR_SEND,
  F_EINTR_ACCEPT,
  F_SHORT_READ,
  F_SHORT_SEND,
  F_FRAG_SEND,
  F_SOCKET_FAIL,
  F_BIND_FAIL,
  F_LISTEN_FAIL,
  F_CONNECT_FAIL,
  F_ACCEPT_FAIL,
  F_FD_THEFT,
  F_TIMEJUMP,
  F_STALL,
  F_OVERSLEEP,
  F_CLOCKJUMP,
  F_KILL,
  F_TIDREUSE,
  F_DISK_SHORT,
  F_DISK_FULL,
  F_SPURIOUS,
  F_HEAPREUSE,
  F_NOISE,
  F_GARBAGE,
  F_PEER_DROP,
  F_FORK_FAIL,
  F_LATE_BIND,
  F_EXEC_FAIL,
  F_PAUSE,     // one thread is not scheduled for a while, the others go on
  F_THREAD_FAIL,  // no thread can be created
  F_SOURCE_FAIL,  // a provider cannot make a source
  F_COUNT
};
extern const char* const fault_names[F_COUNT];

// ---- seeded choices ---------------------------------------------------------------------------------------------
uint64_t choose(uint64_t n);                        // workload choice in [0,n)
inline bool flip(uint64_t num, uint64_t den) { return choose(den) >= den - num; }  // 0 (minimal) means "no"
int64_t range(int64_t lo, int64_t hi);              // inclusive; minimal choice is lo
bool fault(Fault k);                                // does a fault of this kind fire now?
uint64_t fault_val(Fault k, uint64_t n);            // 0 = no fault, else 1..n
void fault_count(Fault k);                          // count a fault the scenario injects by itself
void enable(Fault k, uint32_t per_mille);           // allow kind in this run (swarm decides if and how often)
void enable_exact(Fault k, uint32_t per_mille);     // same, without swarm
void faults_off();                                  // from now on: no faults, fair scheduling
bool faults_active();
void set_sockbuf(size_t bytes);                     // kernel socket buffer size for this run
void set_backlog_cap(int n);
void coarse_clock(int64_t ns);  // the wall clock advances in steps of this
void long_run();  // this run is expected to take much longer than others

// ---- processes and threads --------------------------------------------------------------------------------------
int new_proc(const char* name);                     // returns pid
int main_pid();
void run_as(int pid, const std::function<void()>& f);  // execute f as if in process pid (threads created belong to it)
struct TaskImpl;
class Task
{
public:
  TaskImpl* impl{ nullptr };
  void join();         // real join (synchronises)
  bool done() const;   // no synchronisation
};
Task spawn(int pid, const char* name, std::function<void()> f);
bool alive(int pid);
void kill_proc(int pid);
void kill_proc_after(int pid, uint64_t points);     // kill when that process has executed this many scheduling points
void on_kill(int pid, std::function<void()> f);     // oracle callback, quiet
void stall_proc(int pid, int64_t ns);
void set_fd_range(int pid, int base, int limit);    // descriptor numbers this process can still get: [base, limit)
void stdin_closed(int pid);                         // the process was started without stdin
int open_fds(int pid);                              // number of descriptors of the simulated kernel this process has
int live_threads(int pid);
std::string fd_summary(int pid);
uint64_t points_of(int pid);

// ---- time ---------------------------------------------------------------------------------------------------------
int64_t now();                                      // simulated monotonic ns
void sleep_ns(int64_t ns);
inline void sleep_ms(int64_t ms) { sleep_ns(ms * 1000000); }
bool wait_until(const std::function<bool()>& pred, int64_t timeout_ns);  // pred is evaluated quietly; no synchronisation
void yield();                                       // a scheduling point

// ---- oracle -------------------------------------------------------------------------------------------------------
struct Quiet  // code in this scope is the oracle's: not instrumented, atomic with respect to the scheduler
{
  Quiet();
  ~Quiet();
  Quiet(const Quiet&) = delete;
};
void violate(const char* prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool accepts(const char* prop);                     // is this property being decided by this run?
const char* deciding();                             // property id being decided ("" if any)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);                       // an interesting situation was reached
struct Deadline  // the enclosed call must return within this much simulated time
{
  Deadline(const char* prop, const char* what, int64_t ns);
  ~Deadline();
  int slot;
};
void hash_value(uint64_t v);
void ev(const char* what);                          // counts a workload operation (evidence)

// ---- simulated kernel ---------------------------------------------------------------------------------------------
using ExecHandler = std::function<void(const std::string& file, const std::vector<std::string>& argv)>;
void set_exec_handler(ExecHandler h);               // body of a simulated child process
int sim_write(int fd, const void* p, size_t n);     // write from a stub process (blocking)
void add_proc_net_noise(const std::string& line);
bool killed_by_signal(int pid);                     // kill() was called on it
std::string file_contents(const std::string& path); // of a simulated file under /sim/
bool file_exists(const std::string& path);
int raw_connect(const std::string& abstract_name);  // hostile peer's socket in the current process, -1 if refused
int raw_listen(const std::string& abstract_name);     // hostile server
int raw_accept(int fd, int64_t timeout_ns);
bool raw_send(int fd, const void* p, size_t n);
int64_t raw_recv(int fd, void* p, size_t n, int64_t timeout_ns);  // -1 on timeout, 0 on eof
void raw_urgent(int fd);  // a byte of out of band data
void raw_close(int fd);
bool listener_exists(const std::string& abstract_name);

// ---- registration ---------------------------------------------------------------------------------------------------
struct Scenario
{
  const char* name;
  void (*fn)();
  Scenario* next;
  Scenario(const char* n, void (*f)());
};
}  // namespace sim

#define SCENARIO(id)                                                                                                   \
  static void scenario_##id();                                                                                        \
  static sim::Scenario scenario_reg_##id(#id, scenario_##id);                                                         \
  static void scenario_##id()
