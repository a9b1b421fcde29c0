// A deterministic, controllable replacement of the threading primitives of the
// standard library: threads become fibers of one OS thread and every operation
// on an atomic, mutex or condition variable is a point where the scheduler may
// switch.  Included before the sources of the pool, so that all the
// interleavings of the REAL code can be explored.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <shared_mutex>
#include <string>
#include <thread>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vp {
struct Abandon {}; // thrown when a run has to be given up

struct Fiber {
  ucontext_t ctx;
  std::unique_ptr<char[]> stack;
  std::function<void()> body;
  bool finished = false;
  std::function<bool()> ready; // empty: runnable
  // spinning: it read an address twice while nothing was written
  unsigned long seen_version = 0;
  std::set<const void *> read;
  bool spinning = false;
};

struct Scheduler {
  std::vector<std::unique_ptr<Fiber>> fibers; // 0 is the main one
  std::size_t current = 0;
  unsigned long version = 1;
  unsigned long steps = 0, idle_rounds = 0;
  bool active = false, dead = false;
  std::string why;
  // decides among the candidates (at least 2); the first is the current one
  // when it can go on
  std::function<std::size_t(const std::vector<std::size_t> &, bool)> choose;

  static Scheduler &get() {
    static Scheduler s;
    return s;
  }
  void start() {
    fibers.clear();
    fibers.push_back(std::make_unique<Fiber>());
    current = 0;
    version = 1;
    steps = idle_rounds = 0;
    active = true;
    dead = false;
    why.clear();
  }
  void wrote() {
    ++version;
    idle_rounds = 0;
  }
  void readAt(const void *a) {
    if (!active) {
      return;
    }
    auto &f = *fibers[current];
    if (f.seen_version != version) {
      f.seen_version = version;
      f.read.clear();
    }
    if (!f.read.insert(a).second) {
      f.spinning = true;
      f.read.clear();
    }
  }
  bool schedulable(std::size_t k, bool spinners) const {
    auto &f = *fibers[k];
    if (f.finished || (f.ready && !f.ready())) {
      return false;
    }
    return spinners || !f.spinning || f.seen_version != version;
  }
  // a scheduling point; when `block' is set the current fiber waits for it
  void point(std::function<bool()> block = {}) {
    if (!active) {
      return;
    }
    if (dead) {
      giveUp("the run was abandoned");
    }
    if (++steps > 400000) {
      giveUp("no end after 400000 steps");
    }
    fibers[current]->ready = block;
    std::vector<std::size_t> cand;
    bool spinners = false;
    for (int round = 0; round < 2 && cand.empty(); ++round) {
      spinners = round == 1;
      if (schedulable(current, spinners)) {
        cand.push_back(current);
      }
      for (std::size_t k = 0; k < fibers.size(); ++k) {
        if (k != current && schedulable(k, spinners)) {
          cand.push_back(k);
        }
      }
    }
    if (cand.empty()) {
      giveUp("deadlock: every thread is blocked");
    }
    std::size_t next;
    if (spinners) {
      // only spinning threads are left: all of them go on in turn
      if (++idle_rounds > 4000) {
        giveUp("livelock: every thread waits for something that never happens");
      }
      next = cand.back();
      for (auto c : cand) {
        if (c > current) {
          next = c;
          break;
        }
        next = std::min(next, c);
      }
    } else {
      next = cand.size() == 1 ? cand.front() : choose(cand, cand.front() == current);
    }
    go(next);
  }
  void go(std::size_t next) {
    auto &n = *fibers[next];
    n.ready = {};
    n.spinning = false;
    if (next == current) {
      return;
    }
    auto &c = *fibers[current];
    current = next;
    swapcontext(&c.ctx, &n.ctx);
    if (dead && current == 0) {
      throw Abandon{};
    }
  }
  // there is no way back: the whole process reports and ends
  [[noreturn]] void giveUp(const std::string &w) {
    why = w;
    dead = true;
    onGiveUp(w);
    std::_Exit(4);
  }
  std::function<void(const std::string &)> onGiveUp;

  static void entry(unsigned lo, unsigned hi) {
    auto *f = reinterpret_cast<Fiber *>((static_cast<unsigned long>(hi) << 32) | lo);
    f->body();
    f->finished = true;
    auto &s = get();
    s.wrote();
    s.point();
    std::_Exit(5); // never scheduled again
  }
  std::size_t spawn(std::function<void()> body) {
    auto f = std::make_unique<Fiber>();
    f->body = std::move(body);
    constexpr std::size_t SZ = 256 * 1024;
    f->stack.reset(new char[SZ]);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack.get();
    f->ctx.uc_stack.ss_size = SZ;
    f->ctx.uc_link = nullptr;
    auto p = reinterpret_cast<unsigned long>(f.get());
    makecontext(&f->ctx, reinterpret_cast<void (*)()>(entry), 2, static_cast<unsigned>(p & 0xffffffffu),
                static_cast<unsigned>(p >> 32));
    fibers.push_back(std::move(f));
    wrote();
    return fibers.size() - 1;
  }
};
inline void point() { Scheduler::get().point(); }
inline void wrote() { Scheduler::get().wrote(); }
} // namespace vp

namespace std {
template <typename T> class vp_atomic {
  T v{};
  void pre() const { vp::point(); }

public:
  using value_type = T;
  vp_atomic() = default;
  constexpr vp_atomic(T x) : v(x) {}
  vp_atomic(const vp_atomic &) = delete;
  vp_atomic &operator=(const vp_atomic &) = delete;
  T load(memory_order = memory_order_seq_cst) const {
    pre();
    vp::Scheduler::get().readAt(this);
    return v;
  }
  void store(T x, memory_order = memory_order_seq_cst) {
    pre();
    if (!(v == x)) {
      vp::wrote();
    }
    v = x;
  }
  operator T() const { return load(); }
  T operator=(T x) {
    store(x);
    return x;
  }
  T exchange(T x, memory_order = memory_order_seq_cst) {
    pre();
    T o = v;
    if (!(v == x)) {
      vp::wrote();
    } else {
      vp::Scheduler::get().readAt(this);
    }
    v = x;
    return o;
  }
  bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
    pre();
    if (v == e) {
      if (!(v == d)) {
        vp::wrote();
      }
      v = d;
      return true;
    }
    vp::Scheduler::get().readAt(this);
    e = v;
    return false;
  }
  bool compare_exchange_weak(T &e, T d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) {
    return compare_exchange_strong(e, d, a, b);
  }
#define VP_RMW(NAME, EXPR)                                                                                            \
  template <typename U> T NAME(U x, memory_order = memory_order_seq_cst) {                                            \
    pre();                                                                                                            \
    T o = v;                                                                                                          \
    vp::wrote();                                                                                                      \
    v = static_cast<T>(EXPR);                                                                                         \
    return o;                                                                                                         \
  }
  VP_RMW(fetch_add, o + x)
  VP_RMW(fetch_sub, o - x)
  VP_RMW(fetch_and, o &x)
  VP_RMW(fetch_or, o | x)
  VP_RMW(fetch_xor, o ^ x)
#undef VP_RMW
  T operator++() { return fetch_add(1) + 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--() { return fetch_sub(1) - 1; }
  T operator--(int) { return fetch_sub(1); }
  template <typename U> T operator+=(U x) { return fetch_add(x) + x; }
  template <typename U> T operator-=(U x) { return fetch_sub(x) - x; }
  bool is_lock_free() const { return true; }
};
using vp_atomic_bool = vp_atomic<bool>;
using vp_atomic_size_t = vp_atomic<size_t>;
using vp_atomic_int = vp_atomic<int>;

class vp_mutex {
  bool taken = false;

public:
  vp_mutex() = default;
  vp_mutex(const vp_mutex &) = delete;
  void lock() {
    vp::point();
    while (taken) {
      vp::Scheduler::get().point([this] { return !taken; });
    }
    taken = true;
  }
  bool try_lock() {
    vp::point();
    if (taken) {
      vp::Scheduler::get().readAt(this);
      return false;
    }
    return taken = true;
  }
  void unlock() {
    taken = false;
    vp::wrote();
    vp::point();
  }
};

enum class vp_cv_dummy {};
class vp_condition_variable {
  unsigned long epoch = 0, tickets = 0, served = 0;

public:
  void notify_one() {
    if (tickets > served) {
      ++served;
    }
    vp::wrote();
    vp::point();
  }
  void notify_all() {
    served = tickets;
    vp::wrote();
    vp::point();
  }
  template <typename L> void wait(L &l) {
    const auto mine = ++tickets;
    l.unlock();
    vp::Scheduler::get().point([this, mine] { return served >= mine; });
    l.lock();
  }
  template <typename L, typename P> void wait(L &l, P p) {
    while (!p()) {
      wait(l);
    }
  }
  template <typename L, typename D> cv_status wait_for(L &l, const D &) {
    ++tickets;
    ++served;
    l.unlock();
    vp::point();
    l.lock();
    return cv_status::timeout;
  }
  template <typename L, typename D, typename P> bool wait_for(L &l, const D &d, P p) {
    for (int k = 0; k < 1000 && !p(); ++k) {
      wait_for(l, d);
    }
    return p();
  }
};
using vp_condition_variable_any = vp_condition_variable;

class vp_thread {
  size_t id_ = 0;

public:
  using id = size_t;
  vp_thread() = default;
  template <typename F, typename... A> explicit vp_thread(F f, A... a) {
    id_ = vp::Scheduler::get().spawn([f = std::move(f), a...]() mutable { f(a...); });
    vp::point();
  }
  vp_thread(vp_thread &&o) : id_(o.id_) { o.id_ = 0; }
  vp_thread &operator=(vp_thread &&o) {
    if (id_) {
      std::terminate();
    }
    id_ = o.id_;
    o.id_ = 0;
    return *this;
  }
  ~vp_thread() {
    if (id_) {
      vp::Scheduler::get().giveUp("a joinable thread was destroyed");
    }
  }
  bool joinable() const { return id_ != 0; }
  void join() {
    auto &s = vp::Scheduler::get();
    const auto k = id_;
    s.point([&s, k] { return s.fibers[k]->finished; });
    id_ = 0;
  }
  void detach() { id_ = 0; }
  id get_id() const { return id_; }
  static unsigned hardware_concurrency() { return 8; }
};
namespace vp_this_thread {
inline void yield() {
  static int spin;
  vp::Scheduler::get().readAt(&spin);
  vp::point();
}
template <typename D> void sleep_for(const D &) { yield(); }
template <typename D> void sleep_until(const D &) { yield(); }
inline size_t get_id() { return vp::Scheduler::get().current; }
} // namespace vp_this_thread
} // namespace std

#define atomic vp_atomic
#define atomic_bool vp_atomic_bool
#define atomic_size_t vp_atomic_size_t
#define atomic_int vp_atomic_int
#define mutex vp_mutex
#define condition_variable vp_condition_variable
#define condition_variable_any vp_condition_variable_any
#define thread vp_thread
#define this_thread vp_this_thread
