// Replays behaviours of spec/Blocks.tla: the building blocks of the inference.
#include "common.h"

#include <EasyFactorGraph/structure/SpecialFactors.h>

#include <algorithm>

using namespace EFG;

namespace {
const double TOL = 1e-4;

struct Blocks {
  const json &b;
  std::size_t &step;
  std::vector<cat::VariablePtr> vars;
  struct Unary {
    std::shared_ptr<const fac::Immutable> f;
    std::shared_ptr<const fac::UnaryFactor> special; // also as a special factor
  };
  std::vector<Unary> us;

  Blocks(const json &b, std::size_t &step) : b(b), step(step) {
    for (std::size_t v = 0; v < b["sz"].size(); ++v) {
      vars.push_back(cat::make_variable(b["sz"][v].get<std::size_t>(), cat_("b", v + 1)));
    }
  }
  // images as the exact values they must have
  static std::vector<double> exact(const json &def) {
    std::vector<double> res;
    for (auto &r : def["raw"]) {
      const double x = r.get<double>();
      res.push_back(def["k"] == "plain" ? std::ldexp(x, def["s"].get<int>()) : std::exp2(x * def["w"].get<double>()));
    }
    return res;
  }
  std::shared_ptr<fac::Immutable> make(const std::vector<cat::VariablePtr> &scope, const json &def) {
    cat::VariablesSoup vs;
    std::vector<std::size_t> sizes;
    for (auto &v : scope) {
      vs.push_back(v);
      sizes.push_back(v->size());
    }
    auto f = std::make_shared<fac::Factor>(cat::Group{vs});
    std::size_t k = 0;
    const bool plain = def["k"] == "plain";
    for (cat::GroupRange r{sizes}; r != cat::RANGE_END; ++r, ++k) {
      const double x = def["raw"][k].get<double>();
      f->set(*r, static_cast<float>(plain ? std::ldexp(x, def["s"].get<int>()) : x));
    }
    if (plain) {
      return f;
    }
    return std::make_shared<fac::FactorExponential>(*f, static_cast<float>(def["w"].get<double>() * std::log(2.)));
  }
  static std::vector<double> images(const fac::Immutable &f) {
    std::vector<double> res;
    const std::size_t n = f.function().vars().getVariables().front()->size();
    for (std::size_t k = 0; k < n; ++k) {
      res.push_back(f.function().findTransformed(std::vector<std::size_t>{k}));
    }
    return res;
  }
  static void over(const fac::Immutable &f, const cat::VariablePtr &v, const char *what) {
    auto &vs = f.function().vars().getVariables();
    if (vs.size() != 1 || vs.front().get() != v.get()) {
      fail("block", cat_(what, " is not over the expected variable"));
    }
  }
  // the same up to a positive scale
  static void similar(const std::vector<double> &got, const std::vector<double> &want, const std::string &what) {
    stats().add("compared");
    const double mg = *std::max_element(got.begin(), got.end()), mw = *std::max_element(want.begin(), want.end());
    bool ok = got.size() == want.size() && std::isfinite(mg) && (mw > 0 ? mg > 0 : mg == 0);
    for (std::size_t k = 0; ok && k < got.size(); ++k) {
      const double g = mw > 0 ? got[k] / mg : got[k], w = mw > 0 ? want[k] / mw : 0;
      ok = std::abs(g - w) <= TOL && (want[k] > 0 || got[k] == 0);
    }
    if (!ok) {
      fail("block", cat_(what, ": images ", show(got), ", up to a scale they should be ", show(want)));
    }
  }
  static std::vector<double> numbers(const json &j) { return j.get<std::vector<double>>(); }
  // log2 of the range of what f can be multiplied by before overflowing
  static double range(const fac::Immutable &f) {
    double res = 0;
    for (auto x : images(f)) {
      if (x > 0) {
        res = std::max(res, std::abs(std::log2(x)));
      }
    }
    return res;
  }
  // the merge of a single factor: has the same meaning, and can be sent
  std::shared_ptr<const fac::UnaryFactor> sendable(const Unary &u) {
    if (u.special) {
      return u.special;
    }
    return std::make_shared<fac::MergedUnaries>(std::vector<const fac::Immutable *>{u.f.get()});
  }
  void keep(std::shared_ptr<fac::UnaryFactor> f) { us.push_back(Unary{f, f}); }

  void merge(const json &o) {
    auto v = vars[o["v"].get<std::size_t>() - 1];
    std::vector<const fac::Immutable *> of;
    double bits = 0;
    for (auto &i : o["of"]) {
      of.push_back(us[i.get<std::size_t>() - 1].f.get());
      bits += range(*of.back());
    }
    const std::string how = o["how"];
    const auto want = numbers(o["ans"]);
    std::shared_ptr<fac::MergedUnaries> res;
    if (how == "all") {
      res = std::make_shared<fac::MergedUnaries>(of);
    } else {
      res = std::make_shared<fac::MergedUnaries>(v);
      for (auto *f : of) {
        res->merge(*f);
        if (how == "norm") {
          res->normalize();
        }
      }
      if (how != "norm") {
        if (bits < 100) {
          stats().add("raw");
          similar(images(*res), want, "merge before being normalized");
        }
        res->normalize();
      }
    }
    over(*res, v, "a merge");
    similar(images(*res), want, "merge (" + how + ")");
    if (res->getVariable().get() != v.get()) {
      fail("block", "a merge reports another variable");
    }
    keep(res);
  }
  void run() {
    for (auto &o : b["ops"]) {
      ++step;
      const std::string k = o["o"];
      stats().add(k);
      if (k == "given") {
        us.push_back(Unary{make({vars[o["v"].get<std::size_t>() - 1]}, o["def"]), nullptr});
      } else if (k == "merge") {
        merge(o);
      } else if (k == "ones") {
        auto v = vars[o["v"].get<std::size_t>() - 1];
        auto r = std::make_shared<fac::MergedUnaries>(v);
        over(*r, v, "a neutral merge");
        for (auto x : images(*r)) {
          if (x != 1) {
            fail("block", cat_("images of an empty merge: ", show(images(*r))));
          }
        }
        keep(r);
      } else if (k == "ind") {
        auto v = vars[o["v"].get<std::size_t>() - 1];
        const std::size_t x = o["x"];
        if (!o["ok"].get<bool>()) {
          mustThrow(cat_("indicator of ", x, " over ", v->size(), " values"), [&] { fac::Indicator r(v, x); });
          continue;
        }
        auto r = std::make_shared<fac::Indicator>(v, x);
        over(*r, v, "an indicator");
        auto im = images(*r);
        for (std::size_t i = 0; i < im.size(); ++i) {
          if (im[i] != (i == x ? 1. : 0.)) {
            fail("block", cat_("indicator of ", x, ": ", show(im)));
          }
        }
        keep(r);
      } else if (k == "evid") {
        auto f = make({vars[o["g"][0].get<std::size_t>() - 1], vars[o["g"][1].get<std::size_t>() - 1]}, o["def"]);
        auto ev = vars[o["ev"].get<std::size_t>() - 1], hid = vars[o["hid"].get<std::size_t>() - 1];
        const std::size_t x = o["x"];
        auto r = std::make_shared<fac::Evidence>(*f, ev, x);
        over(*r, hid, "an evidence");
        auto want = exact(o["def"]);
        auto got = images(*r);
        const bool first = o["ev"] == o["g"][0];
        for (std::size_t i = 0; i < hid->size(); ++i) {
          const double w = want[first ? x * hid->size() + i : i * ev->size() + x];
          if (!(std::abs(got[i] - w) <= 1e-4 * w)) {
            fail("block", cat_("evidence ", x, ": images ", show(got), ", image ", i, " should be ", w));
          }
        }
        similar(got, numbers(o["ans"]), "evidence");
        keep(r);
      } else if (k == "msg") {
        auto f = make({vars[o["g"][0].get<std::size_t>() - 1], vars[o["g"][1].get<std::size_t>() - 1]}, o["def"]);
        auto from = sendable(us[o["u"].get<std::size_t>() - 1]);
        std::shared_ptr<fac::UnaryFactor> r;
        if (o["kind"] == "SUM") {
          r = std::make_shared<fac::MessageSUM>(*from, *f);
        } else {
          r = std::make_shared<fac::MessageMAP>(*from, *f);
        }
        over(*r, vars[o["to"].get<std::size_t>() - 1], "a message");
        similar(images(*r), numbers(o["ans"]), "message " + o["kind"].get<std::string>());
        if (o["kept"].get<bool>()) {
          keep(r);
        }
      } else if (k == "diff") {
        auto x = sendable(us[o["i"].get<std::size_t>() - 1]), y = sendable(us[o["j"].get<std::size_t>() - 1]);
        const double want = o["num"].get<double>() / o["den"].get<double>();
        for (double got : {x->diff(*y), y->diff(*x)}) {
          if (!(std::abs(got - want) <= 1e-3)) {
            fail("block", cat_("difference of two distributions ", got, " instead of ", want));
          }
        }
      } else if (k == "wrong") {
        auto v = vars[o["v"].get<std::size_t>() - 1];
        auto w = vars[o["v"].get<std::size_t>() % vars.size()];
        auto other = std::make_shared<fac::Factor>(cat::Group{w});
        auto binary = std::make_shared<fac::Factor>(cat::Group{cat::VariablesSoup{v, w}});
        auto twin = std::make_shared<fac::Factor>(cat::Group{cat::make_variable(v->size(), v->name())});
        auto third = cat::make_variable(2, "third");
        auto triple = std::make_shared<fac::Factor>(cat::Group{cat::VariablesSoup{v, w, third}});
        fac::MergedUnaries m{v};
        const auto before = images(m);
        if (o["kind"] == "other") {
          mustThrow("merging a factor over another variable", [&] { m.merge(*other); });
        } else if (o["kind"] == "binary") {
          mustThrow("merging a binary factor", [&] { m.merge(*binary); });
          mustThrow("a message through a unary factor", [&] { fac::MessageSUM r(m, *other); });
          mustThrow("a message through a ternary factor", [&] { fac::MessageMAP r(m, *triple); });
          mustThrow("evidence in a ternary factor", [&] { fac::Evidence r(*triple, v, 0); });
        } else {
          mustThrow("merging a factor over a distinct variable with the same name", [&] { m.merge(*twin); });
        }
        if (images(m) != before) {
          fail("block", "a rejected merge changed the images");
        }
      }
    }
  }
};
} // namespace

int main(int argc, char **argv) {
  std::string file;
  long only = -1;
  unsigned limit = 60;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    if (a.rfind("--only=", 0) == 0) {
      only = std::stol(a.substr(7));
    } else if (a.rfind("--limit=", 0) == 0) {
      limit = std::stoul(a.substr(8));
    } else if (a.rfind("--", 0) != 0) {
      file = a;
    }
  }
  return runBehaviours(file, only, limit, [](const json &b, std::size_t &step) { Blocks{b, step}.run(); });
}
