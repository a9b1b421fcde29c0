// Replays behaviours of spec/BigTree.tla: inference on large trees.
#include "common.h"

#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>

using namespace EFG;

namespace {
const double TOL = 5e-3;

struct Big {
  const json &b;
  std::vector<cat::VariablePtr> vars;
  model::Graph g;
  std::string mode;
  std::size_t n, thr;

  explicit Big(const json &b) : b(b), mode(b["mode"]), n(b["n"]), thr(b["thr"]) {
    for (std::size_t v = 0; v < n; ++v) {
      vars.push_back(cat::make_variable(b["sz"][v].get<std::size_t>(), cat_("n", v + 1)));
    }
  }
  float image(double x, int mag) const {
    if (mode == "max") {
      if (x < -100000) {
        return 0;
      }
      return static_cast<float>(std::ldexp(1., static_cast<int>(x) + mag));
    }
    return static_cast<float>(std::ldexp(x, mag));
  }
  void add(const std::vector<std::size_t> &scope, const json &tab, bool swap, int mag) {
    cat::VariablesSoup vs;
    std::vector<std::size_t> sizes;
    for (auto v : scope) {
      vs.push_back(vars[v]);
      sizes.push_back(vars[v]->size());
    }
    if (swap) {
      std::reverse(vs.begin(), vs.end());
    }
    auto f = std::make_shared<fac::Factor>(cat::Group{vs});
    std::size_t k = 0;
    for (cat::GroupRange r{sizes}; r != cat::RANGE_END; ++r, ++k) {
      auto c = *r;
      if (swap) {
        std::reverse(c.begin(), c.end());
      }
      f->set(c, image(tab[k].get<double>(), mag));
    }
    g.addConstFactor(f);
  }
  void build() {
    for (std::size_t c = 1; c < n; ++c) {
      add({b["par"][c].get<std::size_t>() - 1, c}, b["lib"][b["etab"][c].get<std::size_t>() - 1], b["swap"][c],
          b["emag"][c]);
    }
    for (auto &u : b["una"]) {
      add({u["v"].get<std::size_t>() - 1}, b["lib"][u["tab"].get<std::size_t>() - 1], false, u["mag"]);
    }
  }
  void marginals(const json *ans, const std::string &when) {
    for (std::size_t v = 0; v < n; ++v) {
      auto p = g.getMarginalDistribution(vars[v], thr);
      stats().add("marginals");
      double tot = 0, e = 0;
      for (std::size_t k = 0; k < p.size(); ++k) {
        if (!std::isfinite(p[k]) || !(p[k] >= 0)) {
          fail("big", cat_("marginal of variable ", v + 1, " of ", n, " is ", show(p), " ", when));
        }
        tot += p[k];
        if (ans) {
          e += (*ans)[v][k].get<double>();
        }
      }
      if (p.size() != vars[v]->size() || !(std::abs(tot - 1) < 1e-3)) {
        fail("big", cat_("marginal of variable ", v + 1, " of ", n, " is ", show(p), " ", when));
      }
      for (std::size_t k = 0; ans && k < p.size(); ++k) {
        if (!(std::abs(p[k] - (*ans)[v][k].get<double>() / e) <= TOL)) {
          fail("big", cat_("marginal of variable ", v + 1, " of ", n, " is ", show(p), " instead of ",
                           show((*ans)[v].get<std::vector<double>>()), " / ", e, " ", when));
        }
      }
    }
    const auto &r = g.getLastPropagationResult();
    if (!r.was_completed) {
      fail("big", "propagation on a tree reported as not completed " + when);
    }
  }
  void map(const json &ans, const std::string &when) {
    auto hid = g.getHiddenVariables();
    auto all = g.getHiddenSetMAP(thr);
    if (all.size() != hid.size()) {
      fail("big", "MAP of the hidden set of another size");
    }
    std::map<std::string, std::size_t> got;
    std::size_t i = 0;
    for (auto &h : hid) {
      got[h->name()] = all[i++];
    }
    for (std::size_t v = 0; v < n; ++v) {
      auto x = g.getMAP(vars[v], thr);
      stats().add("maps");
      auto mm = ans[v].get<std::vector<long>>();
      const long best = *std::max_element(mm.begin(), mm.end());
      if (best < -100000) {
        stats().add("impossible");
        continue;
      }
      auto judge = [&](std::size_t x, const char *what) {
        if (x >= mm.size() || mm[x] != best) {
          fail("big", cat_(what, " of variable ", v + 1, " of ", n, " is ", x, ", log2 of the max-marginals ", show(mm),
                           " ", when));
        }
      };
      judge(x, "MAP");
      if (auto it = got.find(vars[v]->name()); it != got.end()) {
        judge(it->second, "hidden set MAP");
      }
    }
  }
  void run() {
    build();
    for (std::size_t k = 0; k < 2; ++k) {
      g.removeAllEvidences();
      const std::string when = cat_("(", b["shape"].get<std::string>(), ", evidence set ", k + 1, ", ", thr, " threads)");
      for (std::size_t v = 0; v < n; ++v) {
        const int e = b["evs"][k][v];
        if (e >= 0) {
          g.setEvidence(vars[v], e);
        }
      }
      if (mode == "sum") {
        marginals(&b["ans"][k], when);
      } else if (mode == "max") {
        map(b["ans"][k], when);
        marginals(nullptr, when);
      } else {
        marginals(nullptr, when);
        for (auto x : g.getHiddenSetMAP(thr)) {
          (void)x;
        }
      }
    }
  }
};
} // namespace

int main(int argc, char **argv) {
  std::string file;
  long only = -1;
  unsigned limit = 60;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    if (a.rfind("--only=", 0) == 0) {
      only = std::stol(a.substr(7));
    } else if (a.rfind("--limit=", 0) == 0) {
      limit = std::stoul(a.substr(8));
    } else if (a.rfind("--", 0) != 0) {
      file = a;
    }
  }
  return runBehaviours(file, only, limit, [](const json &b, std::size_t &) { Big{b}.run(); });
}
