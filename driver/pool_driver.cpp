// Records what the pool does: with SCHED the threads of the real code are
// fibers and many interleavings are explored deterministically, otherwise they
// are real threads.  The events recorded are judged by TLC (spec/PoolTrace.tla).
#ifdef SCHED
#include "sched_shim.h"
#include <structure/bases/PoolAware.cpp>
#else
#include <EasyFactorGraph/structure/bases/PoolAware.h>
#endif
#undef thread
#undef mutex
#include "common.h"
#include <mutex>
#include <random>
#include <thread>
#ifdef SCHED
#define thread vp_thread
#define mutex vp_mutex
#endif

using namespace EFG::strct;

namespace {
struct Events {
#ifndef SCHED
  std::mutex m;
#endif
  std::string txt;
  std::size_t n = 0;
  void add(const std::string &s) {
#ifndef SCHED
    std::lock_guard<std::mutex> l(m);
#endif
    txt += (n++ ? "," : "[") + s;
  }
};

struct PoolUser : public PoolAware {
  using PoolAware::getPool;
  using PoolAware::resetPool;
  using PoolAware::setPoolSize;
  using Activator = PoolAware::ScopedPoolActivator;
};

#ifdef SCHED
void pause_(int) { vp::point(); }
#else
void pause_(int d) {
  if (d == 1) {
    std::this_thread::yield();
  } else if (d > 1) {
    std::this_thread::sleep_for(std::chrono::microseconds(d * 100));
  }
}
#endif

// one run of a scenario: {"s":size,"via":"pool"|"aware","calls":[[n,n..],[..]],"d":[delays]}
void scenario(const json &b, Events &ev, std::mt19937 &rnd) {
  const std::size_t s = b["s"];
  std::unique_ptr<Pool> own;
  std::unique_ptr<PoolUser> user;
  std::unique_ptr<PoolUser::Activator> act;
  Pool *pool;
  if (b["via"] == "pool") {
    own = std::make_unique<Pool>(s);
    pool = own.get();
  } else {
    user = std::make_unique<PoolUser>();
    mustThrow("a pool of size 0", [&] { user->setPoolSize(0); });
    if (user->getPool().size() != 1) {
      fail("pool", "the default pool does not have size 1");
    }
    act = std::make_unique<PoolUser::Activator>(*user, s);
    pool = &user->getPool();
  }
  if (pool->size() != s) {
    fail("pool", cat_("size ", pool->size(), " instead of ", s));
  }
  ev.add(cat_("{\"e\":\"new\",\"n\":", s, "}"));
  const auto calls = b["calls"].get<std::vector<std::vector<std::size_t>>>();
  std::vector<std::string> problems(calls.size());
  std::vector<unsigned> seeds;
  for (std::size_t c = 0; c < calls.size(); ++c) {
    seeds.push_back(rnd());
  }
  auto caller = [&](std::size_t c) {
    std::mt19937 r(seeds[c]);
    for (std::size_t n : calls[c]) {
      // plain memory, written by the tasks and read after the return
      auto cells = std::make_unique<std::vector<long>>(n, 0);
      auto tasks = std::make_unique<Tasks>();
      for (std::size_t t = 0; t < n; ++t) {
        const int d = r() % 8 == 0 ? 2 + r() % 4 : r() % 3;
        tasks->emplace_back([&ev, c, t, d, cell = &(*cells)[t]](const std::size_t w) {
          ev.add(cat_("{\"e\":\"b\",\"c\":", c + 1, ",\"t\":", t, ",\"w\":", w, "}"));
          pause_(d);
          *cell += static_cast<long>(t) + 1;
          ev.add(cat_("{\"e\":\"f\",\"c\":", c + 1, ",\"t\":", t, ",\"w\":", w, "}"));
        });
      }
      ev.add(cat_("{\"e\":\"call\",\"c\":", c + 1, ",\"n\":", n, "}"));
      pool->parallelFor(*tasks);
      ev.add(cat_("{\"e\":\"ret\",\"c\":", c + 1, "}"));
      for (std::size_t t = 0; t < n; ++t) {
        if ((*cells)[t] != static_cast<long>(t) + 1) {
          problems[c] = cat_("task ", t, " of ", n, " on a pool of size ", pool->size(), ": effects not there (",
                             (*cells)[t], ") when the call returned");
        }
      }
    }
  };
  if (calls.size() == 1) {
    caller(0);
  } else {
    std::vector<std::thread> ths;
    for (std::size_t c = 0; c < calls.size(); ++c) {
      ths.emplace_back([&caller, c] { caller(c); });
    }
    for (auto &t : ths) {
      t.join();
    }
  }
  ev.add("{\"e\":\"del\"}");
  own.reset();
  act.reset();
  if (user && user->getPool().size() != 1) {
    fail("pool", "the pool was not reset after the scope");
  }
  user.reset();
  for (auto &p : problems) {
    if (!p.empty()) {
      fail("pool", p);
    }
  }
}

std::size_t RUNS = 50;
long BOUND = 2, CAP = 3000;
std::set<std::string> seen;
std::ofstream traces;

void record(const Events &ev) {
  auto t = ev.txt + "]";
  if (seen.size() < 20000 && seen.insert(t).second) {
    traces << t << "\n";
    stats().add("distinct_traces");
  }
}

#ifdef SCHED
void explore(const json &b) {
  auto &s = vp::Scheduler::get();
  Events *cur = nullptr;
  s.onGiveUp = [&](const std::string &w) {
    traces << cur->txt << "]\n";
    traces.flush();
    std::printf("@MISMATCH %s\n", json{{"beh", -2}, {"step", 0}, {"kind", "pool"}, {"msg", w + " in scenario " + b.dump() + " after " + cur->txt}}.dump().c_str());
    json st;
    for (auto &[a, n] : stats().n) {
      st[a] = n;
    }
    std::printf("@STATS %s\n", st.dump().c_str());
    std::fflush(stdout);
    std::_Exit(1);
  };
  auto once = [&] {
    Events ev;
    cur = &ev;
    std::mt19937 r(7);
    s.start();
    try {
      scenario(b, ev, r);
    } catch (...) {
      s.active = false;
      record(ev);
      throw;
    }
    s.active = false;
    stats().add("schedules");
    stats().add("sched_steps", s.steps);
    record(ev);
  };
  // depth first, with a bound on the number of preemptions
  struct Choice {
    std::size_t taken, of;
    bool preempt;
  };
  for (long bound = 0; bound <= BOUND; ++bound) {
    std::vector<Choice> path;
    long runs = 0;
    while (true) {
      std::size_t at = 0;
      long used = 0;
      s.choose = [&](const std::vector<std::size_t> &cand, bool currentFirst) {
        std::size_t k = 0;
        if (at < path.size()) {
          k = path[at].taken;
        } else {
          const bool can = !currentFirst || used < bound;
          path.push_back({0, can ? cand.size() : 1, currentFirst});
        }
        if (currentFirst && k > 0) {
          ++used;
        }
        ++at;
        return cand[k];
      };
      once();
      path.resize(at);
      while (!path.empty() && path.back().taken + 1 >= path.back().of) {
        path.pop_back();
      }
      if (path.empty()) {
        stats().add(cat_("exhausted_bound_", bound));
        break;
      }
      ++path.back().taken;
      if (++runs >= CAP) {
        break;
      }
    }
  }
  // random ones
  std::mt19937 rnd(11);
  for (std::size_t k = 0; k < RUNS; ++k) {
    const unsigned pct = k % 3 == 0 ? 50 : (k % 3 == 1 ? 10 : 90);
    s.choose = [&](const std::vector<std::size_t> &cand, bool currentFirst) {
      if (currentFirst && rnd() % 100 >= pct) {
        return cand[0];
      }
      return cand[rnd() % cand.size()];
    };
    once();
  }
}
#endif
} // namespace

int main(int argc, char **argv) {
  std::string file = argv[1], scratch = ".";
  long only = -1;
  unsigned limit = 60;
  unsigned seed = 1;
  for (int k = 2; k < argc; ++k) {
    std::string a = argv[k];
    auto val = [&](const char *p) -> const char * {
      return a.rfind(p, 0) == 0 ? a.c_str() + std::strlen(p) : nullptr;
    };
    if (auto v = val("--only=")) {
      only = std::atol(v);
    } else if (auto v = val("--limit=")) {
      limit = std::atoi(v);
    } else if (auto v = val("--scratch=")) {
      scratch = v;
    } else if (auto v = val("--runs=")) {
      RUNS = std::atol(v);
    } else if (auto v = val("--bound=")) {
      BOUND = std::atol(v);
    } else if (auto v = val("--cap=")) {
      CAP = std::atol(v);
    } else if (auto v = val("--seed=")) {
      seed = std::atol(v);
    }
  }
  traces.open(scratch + "/pooltrace.ndjson");
#ifndef SCHED
  std::mt19937 rnd(seed);
#endif
  auto rc = runBehaviours(file, only, limit, [&](const json &b, std::size_t &) {
    if (b["s"] == 0) {
      mustThrow("a pool of size 0", [] { Pool p{0}; });
      return;
    }
#ifdef SCHED
    explore(b);
#else
    for (std::size_t k = 0; k < RUNS; ++k) {
      Events ev;
      scenario(b, ev, rnd);
      stats().add("schedules");
      record(ev);
    }
#endif
  });
  traces.close();
  return rc;
}
