// Shared helpers of the conformance drivers.
#pragma once
#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/categoric/Group.h>
#include <EasyFactorGraph/categoric/GroupRange.h>
#include <EasyFactorGraph/categoric/Variable.h>
#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>
#include <nlohmann/json.hpp>

#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using json = nlohmann::json;
namespace cat = EFG::categoric;
namespace fac = EFG::factor;

struct Mismatch {
  std::string kind, msg;
};

struct Stats {
  std::map<std::string, long> n;
  // not a mutex: those are replaced where the scheduler shim is on
  bool taken = false;
  void add(const std::string &k, long by = 1) {
    while (__atomic_test_and_set(&taken, __ATOMIC_ACQUIRE)) {
    }
    n[k] += by;
    __atomic_clear(&taken, __ATOMIC_RELEASE);
  }
};
inline Stats &stats() {
  static Stats s;
  return s;
}

template <typename... A> std::string cat_(A &&...a) {
  std::ostringstream o;
  (o << ... << a);
  return o.str();
}
template <typename T> std::string show(const std::vector<T> &v) {
  std::ostringstream o;
  o << "[";
  for (std::size_t k = 0; k < v.size(); ++k) {
    o << (k ? "," : "") << v[k];
  }
  o << "]";
  return o.str();
}

[[noreturn]] inline void fail(const std::string &kind, const std::string &msg) {
  throw Mismatch{kind, msg};
}

// must the call be rejected? Any exception derived from std::exception counts.
template <typename F>
void mustThrow(const std::string &what, F &&f) {
  stats().add("rejections");
  bool thrown = false;
  try {
    f();
  } catch (const Mismatch &) {
    throw;
  } catch (const std::exception &) {
    thrown = true;
  }
  if (!thrown) {
    fail("reject", what + " was accepted instead of being rejected");
  }
}

// Runs fn on every line of the behaviours file; reports mismatches.  The index
// of the behaviour in progress is written first so that the runner can tell
// which one crashed the process.
template <typename F>
int runBehaviours(const std::string &file, long only, unsigned limit_s, F &&fn) {
  std::ifstream in(file);
  std::string line;
  long k = -1;
  long bad = 0;
  while (std::getline(in, line)) {
    ++k;
    if (line.empty() || (only >= 0 && k != only)) {
      continue;
    }
    std::fprintf(stderr, "@B %ld\n", k);
    std::fflush(stderr);
    alarm(limit_s); // the default action ends the process, also where a sanitizer defers the handlers
    json b = json::parse(line);
    stats().add("behaviours");
    std::size_t step = 0;
    json rec;
    try {
      fn(b, step);
      continue;
    } catch (const Mismatch &m) {
      rec = {{"beh", k}, {"step", step}, {"kind", m.kind}, {"msg", m.msg}};
    } catch (const std::exception &e) {
      rec = {{"beh", k}, {"step", step}, {"kind", "exception"},
             {"msg", std::string("unexpected exception: ") + e.what()}};
    }
    ++bad;
    std::printf("@MISMATCH %s\n",
                rec.dump(-1, ' ', true, json::error_handler_t::replace).c_str());
    std::fflush(stdout);
    if (bad >= 20) {
      break;
    }
  }
  alarm(0);
  json st;
  for (auto &[a, n] : stats().n) {
    st[a] = n;
  }
  std::printf("@STATS %s\n", st.dump().c_str());
  std::fflush(stdout);
  return bad ? 1 : 0;
}
