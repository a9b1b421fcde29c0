// Replays behaviours of spec/{Range,Groups,Factors,TrainSets}.tla into the
// real classes.
#include "common.h"

#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/structure/GibbsSampler.h>
#include <EasyFactorGraph/trainable/TrainSet.h>

#include <filesystem>
#include <optional>

using namespace EFG;
namespace EFG::io {
// not part of a public header (and not compared when it is not there)
__attribute__((weak)) void import_values(factor::Factor &recipient, const std::filesystem::path &file_name);
} // namespace EFG::io

namespace {
using Comb = std::vector<std::size_t>;
std::string scratch;

// ------------------------------------------------------------------- Range
std::unique_ptr<cat::GroupRange> makeRange(const Comb &sizes, bool as_group) {
  if (!as_group) {
    return std::make_unique<cat::GroupRange>(sizes);
  }
  cat::VariablesSoup vars;
  for (std::size_t k = 0; k < sizes.size(); ++k) {
    vars.push_back(cat::make_variable(sizes[k], cat_("v", k)));
  }
  cat::Group g{vars};
  return std::make_unique<cat::GroupRange>(g);
}
void checkIt(const cat::GroupRange &r, bool end, const Comb &val, const std::string &what) {
  stats().add("positions");
  if ((r == cat::RANGE_END) != end || (r != cat::RANGE_END) == end || (cat::RANGE_END == r) != end) {
    fail("range", what + (end ? ": the end was expected" : ": already at the end"));
  }
  if (end) {
    return;
  }
  if (*r != val || r->size() != val.size()) {
    fail("range", cat_(what, ": points to ", show(*r), " instead of ", show(val)));
  }
}
void runRange(const json &b, std::size_t &step) {
  const auto sizes = b["sizes"].get<Comb>();
  std::vector<std::unique_ptr<cat::GroupRange>> its;
  std::vector<std::pair<bool, Comb>> exp;
  for (auto &op : b["ops"]) {
    ++step;
    stats().add("steps");
    const std::string o = op["o"];
    if (o == "new") {
      its.push_back(makeRange(sizes, op["grp"]));
      exp.emplace_back(false, op["val"].get<Comb>());
    } else if (o == "copy") {
      its.push_back(std::make_unique<cat::GroupRange>(*its.at(op["i"].get<int>() - 1)));
      exp.emplace_back(op["end"].get<bool>(), op["val"].get<Comb>());
    } else if (o == "inc") {
      auto &it = *its.at(op["i"].get<int>() - 1);
      auto &e = exp.at(op["i"].get<int>() - 1);
      for (int k = 0; k < op["n"].get<int>() && it != cat::RANGE_END; ++k) {
        ++it;
      }
      e = {op["end"].get<bool>(), op["val"].get<Comb>()};
    } else if (o == "incEnd") {
      auto &it = *its.at(op["i"].get<int>() - 1);
      mustThrow("advancing an iterator at the end", [&] { ++it; });
    } else if (o == "cmp") {
      auto &a = *its.at(op["i"].get<int>() - 1);
      auto &c = *its.at(op["j"].get<int>() - 1);
      const bool eq = op["eq"];
      if ((a == c) != eq || (a != c) == eq) {
        fail("range", "comparison of two iterators");
      }
    }
    for (std::size_t k = 0; k < its.size(); ++k) {
      checkIt(*its[k], exp[k].first, exp[k].second, cat_("after ", o, ": iterator ", k + 1));
    }
  }
}
void runEnum(const json &b, std::size_t &) {
  const auto sizes = b["sizes"].get<Comb>();
  const auto flat = b["all"].get<Comb>();
  const std::size_t n = flat.size() / sizes.size();
  for (bool grp : {false, true}) {
    auto r = makeRange(sizes, grp);
    for (std::size_t k = 0; k < n; ++k) {
      checkIt(*r, false, Comb(flat.begin() + k * sizes.size(), flat.begin() + (k + 1) * sizes.size()),
              cat_("position ", k));
      ++*r;
    }
    checkIt(*r, true, {}, "after the last");
    mustThrow("advancing an iterator at the end", [&] { ++*r; });
    checkIt(*r, true, {}, "after the last");
    std::size_t k = 0;
    auto again = makeRange(sizes, grp);
    cat::for_each_combination(*again, [&](const Comb &c) {
      if (k >= n || !std::equal(c.begin(), c.end(), flat.begin() + k * sizes.size())) {
        fail("range", "for_each_combination visits another sequence");
      }
      ++k;
    });
    if (k != n) {
      fail("range", "for_each_combination visits another number of combinations");
    }
  }
}

// ------------------------------------------------------------------ Groups
void checkGroup(const cat::Group &g, const json &d, const std::vector<cat::VariablePtr> &objs, const std::string &what) {
  stats().add("groups");
  std::vector<cat::VariablePtr> exp;
  for (int o : d["vs"]) {
    exp.push_back(objs.at(o - 1));
  }
  if (g.getVariables() != exp) {
    fail("group", what + ": other variables, or in another order");
  }
  if (g.size() != d["size"].get<std::size_t>()) {
    fail("group", cat_(what, ": joint size ", g.size(), " instead of ", d["size"]));
  }
  const auto &s = g.getVariablesSet();
  std::set<cat::VariablePtr> as_set(s.begin(), s.end());
  if (s.size() != exp.size() || as_set != std::set<cat::VariablePtr>(exp.begin(), exp.end())) {
    fail("group", what + ": the set of variables differs from the list");
  }
}
std::unique_ptr<cat::Group> variadic(const cat::VariablesSoup &v) {
  switch (v.size()) {
  case 1:
    return std::make_unique<cat::Group>(v[0]);
  case 2:
    return std::make_unique<cat::Group>(v[0], v[1]);
  case 3:
    return std::make_unique<cat::Group>(v[0], v[1], v[2]);
  case 4:
    return std::make_unique<cat::Group>(v[0], v[1], v[2], v[3]);
  }
  return nullptr;
}
void runGroups(const json &b, std::size_t &step) {
  std::vector<cat::VariablePtr> objs;
  for (auto &o : b["objs"]) {
    objs.push_back(cat::make_variable(o[1].get<std::size_t>(), o[0].get<std::string>()));
  }
  auto list = [&](const json &l) {
    cat::VariablesSoup r;
    for (int o : l) {
      r.push_back(objs.at(o - 1));
    }
    return r;
  };
  std::vector<std::unique_ptr<cat::Group>> gs; // the same group built in several ways
  for (auto &op : b["ops"]) {
    ++step;
    stats().add("steps");
    const std::string o = op["o"];
    if (o == "new") {
      auto l = list(op["l"]);
      if (op["ok"].get<bool>()) {
        gs.push_back(std::make_unique<cat::Group>(l));
        if (auto v = variadic(l)) {
          gs.push_back(std::move(v));
        }
        auto inc = std::make_unique<cat::Group>(l[0]);
        for (std::size_t k = 1; k < l.size(); ++k) {
          inc->add(l[k]);
        }
        gs.push_back(std::move(inc));
        gs.push_back(std::make_unique<cat::Group>(*gs.front()));
      } else {
        mustThrow("construction of a bad group", [&] { cat::Group g{l}; });
        if (l.size() > 1) {
          mustThrow("construction of a bad group", [&] { variadic(l); });
        }
      }
    } else if (o == "add") {
      for (auto &g : gs) {
        auto act = [&] { g->add(objs.at(op["v"].get<int>() - 1)); };
        if (op["ok"].get<bool>()) {
          act();
        } else {
          mustThrow("adding a repeated name", act);
        }
      }
    } else if (o == "replace") {
      for (auto &g : gs) {
        auto act = [&] { g->replaceVariables(list(op["l"])); };
        if (op["ok"].get<bool>()) {
          act();
        } else {
          mustThrow("a bad replacement", act);
        }
      }
    } else if (o == "eq") {
      cat::Group h{list(op["l"])};
      for (auto &g : gs) {
        if ((*g == h) != op["ok"].get<bool>() || (h == *g) != op["ok"].get<bool>()) {
          fail("group", "equality of groups");
        }
      }
    } else if (o == "minus") {
      auto a = cat::to_vars_set(list(op["a"]));
      const auto c = cat::to_vars_set(list(op["b"]));
      const auto res = cat::get_complementary(a, c);
      auto sub = a;
      sub -= c;
      std::set<cat::VariablePtr> exp, got(res.begin(), res.end()), got2(sub.begin(), sub.end());
      for (auto &v : list(op["d"])) {
        exp.insert(v);
      }
      stats().add("sets");
      if (got != exp || got2 != exp || a.size() != op["a"].size()) {
        fail("group", "difference of two sets of variables");
      }
    } else if (o == "var") {
      auto act = [&] {
        auto v = cat::make_variable(op["s"].get<std::size_t>(), op["n"].get<std::string>());
        cat::Variable w{op["s"].get<std::size_t>(), op["n"].get<std::string>()};
        if (v->name() != op["n"] || v->size() != op["s"].get<std::size_t>() || !(*v == w)) {
          fail("group", "name or size of a variable");
        }
      };
      if (op["ok"].get<bool>()) {
        act();
      } else {
        mustThrow("a bad variable", act);
      }
    }
    if (op.contains("d") && o != "minus" && !op["d"].empty()) {
      for (auto &g : gs) {
        checkGroup(*g, op["d"][0], objs, "after " + o);
      }
    }
  }
}

void runGroupHist(const json &b, std::size_t &step) {
  std::vector<cat::VariablePtr> objs;
  for (auto &o : b["objs"]) {
    objs.push_back(cat::make_variable(o[1].get<std::size_t>(), o[0].get<std::string>()));
  }
  auto list = [&](const json &l) {
    cat::VariablesSoup r;
    for (int o : l) {
      r.push_back(objs.at(o - 1));
    }
    return r;
  };
  std::vector<cat::Group> gs;
  for (auto &op : b["ops"]) {
    ++step;
    stats().add("steps");
    const std::string o = op["o"];
    auto at = [&](const char *k) -> cat::Group & { return gs.at(op[k].get<std::size_t>() - 1); };
    auto guarded = [&](const char *what, const std::function<void()> &act) {
      if (op["ok"].get<bool>()) {
        act();
      } else {
        mustThrow(what, act);
      }
    };
    if (o == "new") {
      guarded("construction of a bad group", [&] { gs.emplace_back(list(op["l"])); });
    } else if (o == "copy") {
      cat::Group c{at("i")};
      gs.push_back(std::move(c));
    } else if (o == "assign") {
      cat::Group &to = at("i");
      const cat::Group &from = at("j");
      to = from;
    } else if (o == "add") {
      guarded("adding a repeated name", [&] { at("i").add(objs.at(op["v"].get<int>() - 1)); });
    } else if (o == "replace") {
      guarded("a bad replacement", [&] { at("i").replaceVariables(list(op["l"])); });
    } else if (o == "eq") {
      if ((at("i") == at("j")) != op["ok"].get<bool>()) {
        fail("group", "equality of groups");
      }
    } else if (o == "minus") {
      const auto res = cat::get_complementary(at("i").getVariablesSet(), at("j").getVariablesSet());
      auto sub = at("i").getVariablesSet();
      sub -= at("j").getVariablesSet();
      auto exp_list = list(op["d"]);
      std::set<cat::VariablePtr> exp(exp_list.begin(), exp_list.end()), got(res.begin(), res.end()),
          got2(sub.begin(), sub.end());
      if (got != exp || got2 != exp) {
        fail("group", "difference of the variables of two groups");
      }
    }
    if (gs.size() != op["all"].size()) {
      fail("group", "number of groups");
    }
    for (std::size_t k = 0; k < gs.size(); ++k) {
      checkGroup(gs[k], op["all"][k], objs, cat_("group ", k + 1, " after ", o));
    }
  }
}

// ----------------------------------------------------------------- Factors
const double LN2 = 0.69314718055994530942;
struct FObj {
  std::shared_ptr<fac::Factor> p;
  std::shared_ptr<fac::FactorExponential> e;
  json now;
  bool free_order = false; // product of factors: the order of its variables is free
  fac::Immutable &im() { return p ? static_cast<fac::Immutable &>(*p) : *e; }
};
struct FWorld {
  std::vector<cat::VariablePtr> vars;
  std::map<int, FObj> fs;

  cat::VariablesSoup soup(const json &sc) {
    cat::VariablesSoup r;
    for (int v : sc) {
      r.push_back(vars.at(v - 1));
    }
    return r;
  }
  double image(const json &now, std::size_t i) {
    const double x = now["tab"][i];
    return now["k"] == "plain" ? std::ldexp(x / 64., now["e"].get<int>()) : std::exp(now["w"].get<double>() * LN2 * x);
  }
  double raw(const json &now, std::size_t i) {
    const double x = now["tab"][i];
    return now["k"] == "plain" ? std::ldexp(x / 64., now["e"].get<int>()) : x;
  }
  void check(int id, const std::string &after) {
    auto &f = fs.at(id);
    auto &im = f.im();
    const auto &fn = im.function();
    const std::string who = cat_("factor ", id, " after ", after);
    const auto sc = f.now["sc"].get<std::vector<int>>();
    auto exp_vars = soup(f.now["sc"]);
    const auto got_vars = fn.vars().getVariables();
    stats().add("factors");
    // position in sc of each variable of the object
    std::vector<std::size_t> pos;
    for (auto &v : got_vars) {
      auto it = std::find(exp_vars.begin(), exp_vars.end(), v);
      if (it == exp_vars.end()) {
        fail("factor", who + ": other variables");
      }
      pos.push_back(it - exp_vars.begin());
    }
    if (got_vars.size() != exp_vars.size() || (!f.free_order && got_vars != exp_vars)) {
      fail("factor", who + ": other variables or order");
    }
    Comb sizes;
    for (auto &v : got_vars) {
      sizes.push_back(v->size());
    }
    if (fn.getInfo().totCombinations != fn.vars().size()) {
      fail("factor", who + ": number of combinations");
    }
    // all the combinations, by an independent counter
    std::vector<Comb> all{{}};
    for (auto s : sizes) {
      std::vector<Comb> next;
      for (auto &c : all) {
        for (std::size_t x = 0; x < s; ++x) {
          next.push_back(c);
          next.back().push_back(x);
        }
      }
      all.swap(next);
    }
    auto index = [&](const Comb &c) {
      Comb d(c.size());
      for (std::size_t k = 0; k < c.size(); ++k) {
        d[pos[k]] = c[k];
      }
      std::size_t i = 0;
      for (std::size_t k = 0; k < d.size(); ++k) {
        i = i * vars.at(sc[k] - 1)->size() + d[k];
      }
      return i;
    };
    const bool plain = f.now["k"] == "plain";
    auto same = [&](double got, double exp, double tol, const char *how, const Comb &c) {
      if (!(std::abs(got - exp) <= tol * std::abs(exp))) {
        fail("factor", cat_(who, ": ", how, " of ", show(c), " is ", got, " instead of ", exp));
      }
    };
    double sum = 0;
    std::size_t nonnull = 0;
    for (auto &c : all) {
      const auto i = index(c);
      same(fn.findImage(c), raw(f.now, i), 0, "raw image", c);
      same(fn.findTransformed(c), image(f.now, i), plain ? 0 : 1e-5, "image", c);
      sum += image(f.now, i);
      nonnull += raw(f.now, i) != 0;
    }
    std::size_t k = 0;
    fn.forEachCombination<true>([&](const auto &c, float img) {
      if (k >= all.size() || c != all[k]) {
        fail("factor", who + ": combinations visited in another order");
      }
      same(img, image(f.now, index(c)), plain ? 0 : 1e-5, "visited image", c);
      ++k;
    });
    if (k != all.size()) {
      fail("factor", who + ": not all the combinations visited");
    }
    k = 0;
    fn.forEachCombination<false>([&](const auto &c, float img) {
      if (k >= all.size() || c != all[k]) {
        fail("factor", who + ": combinations visited in another order");
      }
      same(img, raw(f.now, index(c)), 0, "visited raw image", c);
      ++k;
    });
    std::set<Comb> seen;
    fn.forEachNonNullCombination<true>([&](const auto &c, float img) {
      if (!seen.insert(c).second) {
        fail("factor", who + ": non null combination visited twice");
      }
      same(img, image(f.now, index(c)), plain ? 0 : 1e-5, "visited non null image", c);
      if (plain && img == 0) {
        fail("factor", who + ": null combination visited as non null");
      }
    });
    if (plain && seen.size() != nonnull) {
      fail("factor", cat_(who, ": ", seen.size(), " non null combinations visited instead of ", nonnull));
    }
    seen.clear();
    fn.forEachNonNullCombination<false>([&](const auto &c, float img) {
      seen.insert(c);
      same(img, raw(f.now, index(c)), 0, "visited non null raw image", c);
    });
    if (plain && seen.size() != nonnull) {
      fail("factor", cat_(who, ": ", seen.size(), " non null raw combinations visited instead of ", nonnull));
    }
    const auto probs = im.getProbabilities();
    if (probs.size() != all.size()) {
      fail("factor", who + ": number of probabilities");
    }
    for (std::size_t i = 0; i < all.size(); ++i) {
      const double e = sum == 0 ? 1. / all.size() : image(f.now, index(all[i])) / sum;
      if (!(std::abs(probs[i] - e) <= 1e-5)) {
        fail("factor", cat_(who, ": probability ", i, " is ", probs[i], " instead of ", e));
      }
    }
    if (f.e) {
      const double w = f.now["w"].get<double>() * LN2;
      same(f.e->getWeight(), w, 1e-6, "weight", {});
    }
  }
};
void runFactors(const json &b, std::size_t &step) {
  FWorld w;
  for (std::size_t k = 0; k < b["sz"].size(); ++k) {
    w.vars.push_back(cat::make_variable(b["sz"][k].get<std::size_t>(), cat_("v", k + 1)));
  }
  auto f32 = [](double x) { return static_cast<float>(x); };
  for (auto &op : b["ops"]) {
    ++step;
    stats().add("steps");
    const std::string o = op["o"];
    stats().add("op_" + o);
    auto &fs = w.fs;
    FObj n;
    bool made = false;
    auto from = [&]() -> FObj & { return fs.at(op["from"].get<int>()); };
    if (o == "new") {
      n.p = std::make_shared<fac::Factor>(cat::Group{w.soup(op["now"]["sc"])});
      made = true;
    } else if (o == "set") {
      for (std::size_t k = 0; k < op["cs"].size(); ++k) {
        fs.at(op["f"]).p->set(op["cs"][k].get<Comb>(), f32(std::ldexp(op["xs"][k].get<double>() / 64, op["now"]["e"].get<int>())));
      }
    } else if (o == "setErr") {
      mustThrow("assignment (" + op["bad"].get<std::string>() + ")",
                [&] { fs.at(op["f"]).p->set(op["c"].get<Comb>(), f32(op["x"].get<double>())); });
    } else if (o == "clear") {
      fs.at(op["f"]).p->clear();
    } else if (o == "copy") {
      n.free_order = from().free_order;
      if (from().p) {
        n.p = std::make_shared<fac::Factor>(*from().p);
      } else {
        n.e = std::make_shared<fac::FactorExponential>(*from().e);
      }
      made = true;
    } else if (o == "replace" || o == "replaceErr") {
      auto &f = fs.at(op["f"]);
      auto act = [&] {
        if (f.p) {
          f.p->replaceVariables(w.soup(o == "replace" ? op["now"]["sc"] : op["sc"]));
        } else {
          f.e->replaceVariables(w.soup(o == "replace" ? op["now"]["sc"] : op["sc"]));
        }
      };
      if (o == "replace") {
        act();
      } else {
        mustThrow("replacement of the variables of a factor", act);
      }
    } else if (o == "expo") {
      n.e = std::make_shared<fac::FactorExponential>(*from().p, f32(op["w"].get<double>() * LN2));
      n.free_order = from().free_order;
      made = true;
    } else if (o == "setW") {
      fs.at(op["f"]).e->setWeight(f32(op["w"].get<double>() * LN2));
    } else if (o == "clone") {
      n.p = std::make_shared<fac::Factor>(from().im(), fac::Factor::CloneTrasformedImagesTag{});
      n.free_order = from().free_order;
      made = true;
    } else if (o == "merge") {
      std::vector<const fac::Immutable *> ptrs;
      for (int k : op["from"]) {
        ptrs.push_back(&fs.at(k).im());
      }
      std::unique_ptr<fac::Factor> prod;
      if (ptrs.size() == 2) {
        prod = std::make_unique<fac::Factor>(fac::Factor::merge(*ptrs[0], *ptrs[1]));
      } else if (ptrs.size() == 3) {
        prod = std::make_unique<fac::Factor>(fac::Factor::merge(*ptrs[0], *ptrs[1], *ptrs[2]));
      } else {
        prod = std::make_unique<fac::Factor>(ptrs);
      }
      // put the variables in the order of the specification
      const auto got = prod->function().vars().getVariables();
      auto exp = w.soup(op["now"]["sc"]);
      if (std::set<cat::VariablePtr>(got.begin(), got.end()) != std::set<cat::VariablePtr>(exp.begin(), exp.end()) ||
          got.size() != exp.size()) {
        fail("factor", "the variables of a product are not the union");
      }
      FObj tmp;
      tmp.p = std::make_shared<fac::Factor>(*prod);
      tmp.now = op["now"];
      tmp.free_order = true;
      fs[-1] = tmp;
      w.check(-1, "merge");
      fs.erase(-1);
      n.p = std::make_shared<fac::Factor>(prod->cloneWithPermutedGroup(cat::Group{exp}));
      made = true;
    } else if (o == "permute") {
      n.p = std::make_shared<fac::Factor>(from().p->cloneWithPermutedGroup(cat::Group{w.soup(op["now"]["sc"])}));
      made = true;
    } else if (o == "permuteErr") {
      mustThrow("permutation into another group",
                [&] { from().p->cloneWithPermutedGroup(cat::Group{w.soup(op["sc"])}); });
    } else if (o == "corr" || o == "corrErr") {
      auto act = [&] {
        cat::Group g{w.soup(op["sc"])};
        if (op["anti"].get<bool>()) {
          n.p = std::make_shared<fac::Factor>(g, fac::Factor::SimplyAntiCorrelatedTag{});
        } else {
          n.p = std::make_shared<fac::Factor>(g, fac::Factor::SimplyCorrelatedTag{});
        }
      };
      if (o == "corr") {
        act();
        made = true;
      } else {
        mustThrow("a bad correlation", act);
      }
    } else if (o == "finder") {
      auto &f = fs.at(op["f"]);
      auto big = w.soup(op["big"]);
      if (!op["ok"].get<bool>()) {
        mustThrow("a look-up through a group lacking a variable", [&] { f.im().makeFinder(big); });
      } else {
        // another variable having the name of one of the factor
        auto other = big;
        for (auto &v : other) {
          if (v == f.im().function().vars().getVariables().front()) {
            v = cat::make_variable(v->size() + 1, v->name());
          }
        }
        mustThrow("a look-up through a group having another variable with the same name",
                  [&] { f.im().makeFinder(other); });
        auto fi = f.im().makeFinder(big);
        Comb sizes;
        for (auto &v : big) {
          sizes.push_back(v->size());
        }
        std::size_t k = 0;
        for (cat::GroupRange r{sizes}; r != cat::RANGE_END; ++r, ++k) {
          const std::size_t i = op["idx"][k].get<std::size_t>() - 1;
          stats().add("lookups");
          const double e = w.image(f.now, i);
          if (!(std::abs(fi.findTransformed(*r) - e) <= 1e-5 * e) || fi.findImage(*r) != f32(w.raw(f.now, i))) {
            fail("factor", cat_("look-up of ", show(*r), " through a bigger group gives ", fi.findTransformed(*r),
                                " instead of ", e));
          }
        }
      }
    } else {
      throw std::runtime_error("driver: unknown op " + o);
    }
    if (made) {
      n.now = op["now"];
      fs[op["f"].get<int>()] = n;
    } else if (op.contains("now")) {
      fs.at(op["f"]).now = op["now"];
    }
    for (auto &[id, f] : fs) {
      (void)f;
      w.check(id, o);
    }
  }
}

// --------------------------------------------------------------- TrainSets
std::string sep(const std::string &lay) { return lay == "tabs" ? "\t" : lay == "spaces" ? "   " : " "; }
void writeRows(const std::string &path, const std::vector<std::string> &rows, const std::string &lay) {
  std::ofstream out(path, std::ios::binary);
  const std::string nl = lay == "crlf" ? "\r\n" : "\n";
  for (std::size_t k = 0; k < rows.size(); ++k) {
    if (lay == "spaces") {
      out << " ";
    }
    out << rows[k];
    if (lay == "spaces") {
      out << "  ";
    }
    if (k + 1 < rows.size() || lay != "nonl") {
      out << nl;
    }
    if (lay == "blank" && k % 2 == 0) {
      out << nl;
    }
  }
}
void runTrain(const json &b, std::size_t &step) {
  std::vector<std::pair<std::unique_ptr<train::TrainSet>, std::vector<Comb>>> ts;
  const std::string path = scratch + "/rows.txt";
  for (auto &op : b["ops"]) {
    ++step;
    stats().add("steps");
    const std::string o = op["o"];
    stats().add("op_" + o);
    if (o == "new" || o == "file") {
      auto rows = op["rows"].get<std::vector<Comb>>();
      if (o == "file") {
        std::vector<std::string> lines;
        for (auto &r : rows) {
          std::string l;
          for (std::size_t k = 0; k < r.size(); ++k) {
            l += (k ? sep(op["lay"]) : "") + std::to_string(r[k]);
          }
          lines.push_back(l);
        }
        writeRows(path, lines, op["lay"]);
      }
      auto act = [&] {
        auto t = o == "new" ? std::make_unique<train::TrainSet>(rows)
                            : std::make_unique<train::TrainSet>(io::import_train_set(path));
        ts.emplace_back(std::move(t), rows);
      };
      if (op["ok"].get<bool>()) {
        act();
      } else {
        mustThrow("a bad training set", act);
      }
    } else if (o == "missing") {
      if (op["fac"].get<bool>() && io::import_values) {
        fac::Factor f{cat::Group{cat::make_variable(2, "a")}};
        mustThrow("a missing file", [&] { io::import_values(f, scratch + "/missing.txt"); });
      } else {
        mustThrow("a missing file", [&] { io::import_train_set(scratch + "/missing.txt"); });
      }
    } else if (o == "full" || o == "part") {
      auto &[t, rows] = ts.at(op["i"].get<int>() - 1);
      auto collect = [&](const train::TrainSet::Iterator &it) {
        std::vector<Comb> got;
        it.forEachSample([&](const auto &c) { got.push_back(c); });
        return got;
      };
      if (o == "full") {
        auto it = t->makeIterator();
        if (it.size() != rows.size() || collect(it) != rows || collect(it) != rows) {
          fail("train", "the full iterator does not visit all the samples in order");
        }
      } else if (!op["ok"].get<bool>()) {
        mustThrow("a bad percentage", [&] { t->makeSubSetIterator(op["p"].get<float>() / 64.f); });
      } else {
        auto it = t->makeSubSetIterator(op["p"].get<float>() / 64.f);
        auto got = collect(it);
        const std::size_t n = op["n"];
        if (it.size() != n || got.size() != n) {
          fail("train", cat_("partial iterator of ", op["p"], "/64 over ", rows.size(), " samples: size ", it.size(),
                             ", visits ", got.size(), ", expected ", n));
        }
        for (auto &c : got) {
          if (std::find(rows.begin(), rows.end(), c) == rows.end()) {
            fail("train", "the partial iterator visits something that is not a sample");
          }
        }
        if (collect(it) != got) {
          fail("train", "the partial iterator changes its samples");
        }
      }
    } else if (o == "factor") {
      if (!io::import_values) {
        continue;
      }
      cat::VariablesSoup vars;
      for (std::size_t k = 0; k < op["sz"].size(); ++k) {
        vars.push_back(cat::make_variable(op["sz"][k].get<std::size_t>(), cat_("v", k)));
      }
      fac::Factor f{cat::Group{vars}};
      if (op["pre"].get<bool>()) {
        for (cat::GroupRange r{f.function().vars()}; r != cat::RANGE_END; ++r) {
          f.set(*r, 77.f);
        }
      }
      std::vector<std::string> lines;
      std::map<Comb, float> exp;
      for (auto &r : op["rows"]) {
        std::string l;
        for (auto &x : r["c"]) {
          l += std::to_string(x.get<int>()) + sep(op["lay"]);
        }
        const int img = r["img"];
        l += img < 0 ? "-1.5" : std::to_string(img) + ".25";
        exp[r["c"].get<Comb>()] = img + 0.25f;
        lines.push_back(l);
      }
      writeRows(path, lines, op["lay"]);
      if (!op["ok"].get<bool>()) {
        mustThrow("a bad file of images", [&] { io::import_values(f, path); });
      } else {
        io::import_values(f, path);
        f.function().forEachCombination<false>([&](const auto &c, float img) {
          auto it = exp.find(c);
          if (img != (it == exp.end() ? 0.f : it->second)) {
            fail("train", cat_("image of ", show(c), " read from file is ", img));
          }
        });
      }
    }
    for (auto &[t, rows] : ts) {
      if (t->getCombinations() != rows) {
        fail("train", "the training set does not hold the given combinations");
      }
    }
  }
  std::filesystem::remove(path);
}
// -------------------------------------------------------------------- Draw
void runDraw(const json &b, std::size_t &) {
  const auto wts = b["w"].get<std::vector<double>>();
  const double tot = b["tot"];
  std::vector<float> p;
  for (auto x : wts) {
    p.push_back(static_cast<float>(x / tot));
  }
  const std::size_t seed = b["seed"];
  std::string problem;
  auto attempt = [&](std::size_t n, std::size_t s) {
    strct::UniformSampler u, v;
    u.resetSeed(s);
    v.resetSeed(s);
    std::vector<double> cnt(p.size(), 0);
    for (std::size_t k = 0; k < n; ++k) {
      const auto x = u.sampleFromDiscrete(p);
      stats().add("draws");
      if (x >= p.size() || !b["support"][x].get<bool>()) {
        fail("draw", cat_("value ", x, " drawn from ", show(p), " (draw ", k + 1, " with seed ", s, ")"));
      }
      if (k < 50 && v.sampleFromDiscrete(p) != x) {
        fail("draw", "two generators with the same seed give different draws");
      }
      ++cnt[x];
    }
    for (std::size_t k = 0; k < p.size(); ++k) {
      const double q = wts[k] / tot;
      if (!(std::abs(cnt[k] / n - q) <= 5 * std::sqrt(q * (1 - q) / n) + 3. / n)) {
        problem = cat_("value ", k, " has frequency ", cnt[k] / n, " over ", n, " draws, probability ", q);
        return false;
      }
    }
    return true;
  };
  if (!attempt(2000, seed) && !attempt(100000, seed + 1) && !attempt(200000, seed + 2)) {
    fail("draw", problem);
  }
}
} // namespace

int main(int argc, char **argv) {
  std::string file;
  long only = -1;
  unsigned limit = 60;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    if (a.rfind("--only=", 0) == 0) {
      only = std::stol(a.substr(7));
    } else if (a.rfind("--limit=", 0) == 0) {
      limit = std::stoul(a.substr(8));
    } else if (a.rfind("--scratch=", 0) == 0) {
      scratch = a.substr(10);
    } else {
      file = a;
    }
  }
  return runBehaviours(file, only, limit, [](const json &b, std::size_t &k) {
    const std::string s = b["spec"];
    if (s == "range") {
      runRange(b, k);
    } else if (s == "enum") {
      runEnum(b, k);
    } else if (s == "groups") {
      runGroups(b, k);
    } else if (s == "grouphist") {
      runGroupHist(b, k);
    } else if (s == "draw") {
      runDraw(b, k);
    } else if (s == "factors") {
      runFactors(b, k);
    } else {
      runTrain(b, k);
    }
  });
}
