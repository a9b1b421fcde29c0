// Replays behaviours of spec/EFGModel.tla into the real library through its
// public API and compares every outcome with the one the specification gives.
//
//   model_driver FILE [--judge=a,b,..] [--names=odd] [--scale] [--only=K]
//
// Only the comparisons named in --judge are made: the others belong to other
// properties.
#include "common.h"

#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>
#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
#include <EasyFactorGraph/trainable/TrainSet.h>
#ifdef EFG_XML_IO
#include <sstream>
#include <EasyFactorGraph/io/xml/Exporter.h>
#include <EasyFactorGraph/io/xml/Importer.h>
#endif
#ifdef EFG_LEARNING_ENABLED
#include <EasyFactorGraph/trainable/ModelTrainer.h>
#endif

#include <filesystem>
#include <functional>
#include <numeric>
#include <optional>

#include <atomic>
#include <chrono>
#include <thread>
#include <ctime>
using namespace EFG;

// The wall clock the library sees: every reading differs from the previous one,
// so that whatever depends on it without being asked to shows up at once.
extern "C" time_t time(time_t *t) noexcept {
  static std::atomic<long> now{1700000000};
  const time_t r = now.fetch_add(7);
  if (t != nullptr) {
    *t = r;
  }
  return r;
}

namespace {
std::set<std::string> judged;
bool judge(const std::string &k) { return judged.count(k) != 0; }
bool odd_names = false;
bool scaled = false;
bool unit_weights = false; // the weights of the specification are the actual ones (RS = ln 2)
float RS = 1.f; // raw images are multiplied by RS and weights divided by it
double TOL = 1e-4;
double LOOPTOL = 0.06;
thread_local std::string scratch;
unsigned together = 1; // replays of a history going on at the same time

std::string varName(int v) {
  if (!odd_names) {
    return cat_("v", v);
  }
  static const std::vector<std::string> odd = {
      "plain",       "with space",      "quo\"te",      "back\\slash", "tab\tand\nnewline",
      "caf\xc3\xa9 \xe2\x82\xac", "a/b{c}[d],:", "\\\"\\n\\u0041", " 'lead & <trail> "};
  return odd[(v - 1) % odd.size()] + (v > static_cast<int>(odd.size()) ? std::to_string(v) : "");
}

bool probing = false;
bool training = false; // weights and gradients through train_model
bool with_xml = false; // every export is done in xml too
// A factor of the user which notices being evaluated by two threads at once:
// while sampling, the factor of two connected variables is evaluated by the
// tasks resampling them only.
std::atomic<bool> probe_armed{false};
std::atomic<long> probe_overlaps{0}, probe_calls{0};
class ProbeFunction : public fac::Function {
public:
  explicit ProbeFunction(const fac::Function &o) : fac::Function(o.vars()) { cloneImages(o); }

protected:
  float transform(float x) const override {
    if (!probe_armed.load()) {
      return x;
    }
    probe_calls.fetch_add(1);
    if (inside.fetch_add(1) > 0) {
      probe_overlaps.fetch_add(1);
    }
    std::this_thread::sleep_for(std::chrono::microseconds(15));
    inside.fetch_sub(1);
    return x;
  }
  mutable std::atomic<int> inside{0};
};
class ProbeFactor : public fac::Immutable {
public:
  explicit ProbeFactor(const fac::Factor &o) : fac::Immutable(std::make_shared<ProbeFunction>(o.function())) {}
};

// what the strategy installed by the user was asked, and what it answered
struct Asked {
  std::size_t size;
  strct::PropagationKind kind;
  std::size_t iterations;
  bool answer;
};
struct Recorder {
  std::vector<Asked> now;                  // since the beginning of the call
  std::optional<std::vector<Asked>> last;  // by the last propagation over cycles
};
class RecordingStrategy : public strct::LoopyBeliefPropagationStrategy {
public:
  RecordingStrategy(std::shared_ptr<Recorder> r, bool deny, unsigned seed)
      : rec(std::move(r)), deny(deny), state(seed) {}
  bool propagateBelief(strct::HiddenCluster &subject, strct::PropagationKind kind,
                       const strct::PropagationContext &context, strct::Pool &pool) override {
    bool res = base.propagateBelief(subject, kind, context, pool);
    state = state * 1103515245u + 12345u;
    if (deny && ((state >> 16) & 1u)) {
      res = false;
    }
    rec->now.push_back(Asked{subject.nodes.size(), kind, context.max_iterations_loopy_propagation, res});
    return res;
  }

private:
  strct::BaselineLoopyPropagator base;
  std::shared_ptr<Recorder> rec;
  bool deny;
  unsigned state;
};

struct FDef {
  std::vector<int> sc;
  std::vector<double> raw;
  std::string k;
  double w = 0;
  float s = 1.f; // scale of the images of a plain factor
};
FDef parseDef(const json &d, float scale = 1.f) {
  FDef r;
  r.s = scale;
  r.sc = d["sc"].get<std::vector<int>>();
  r.raw = d["raw"].get<std::vector<double>>();
  r.k = d["k"];
  r.w = d["w"];
  return r;
}
const double LN2 = 0.69314718055994530942;
float realW(double w) { return static_cast<float>(w * LN2 / RS); }
// scale of the images of plain factor number fid
float scaleOf(int fid) {
  if (!scaled) {
    return 1.f;
  }
  static const float s[] = {1.f, 1.2345678e-9f, 3.3333333e7f, 7.7777e-4f, 1.000001e3f, 2.5e-13f, 9.87654e11f};
  return s[fid % 7];
}
// the stored raw images of factor fid
std::vector<float> rawImages(const FDef &d) {
  std::vector<float> r;
  for (auto x : d.raw) {
    if (d.k == "plain") {
      r.push_back(static_cast<float>(x) * d.s);
    } else {
      r.push_back(static_cast<float>(x) * RS);
    }
  }
  return r;
}

using VarTable = std::map<int, cat::VariablePtr>;

struct Model {
  std::string ty;
  std::unique_ptr<model::Graph> g;
  std::unique_ptr<model::RandomField> rf;
  std::unique_ptr<model::ConditionalRandomField> crf;
  std::shared_ptr<VarTable> vt;
  std::shared_ptr<Recorder> rec;
  bool denied = false;

  template <typename F> auto any(F &&f) {
    if (g) {
      return f(*g);
    }
    if (rf) {
      return f(*rf);
    }
    return f(*crf);
  }
  const strct::StateAware &state() {
    if (g) return *g;
    if (rf) return *rf;
    return *crf;
  }
  strct::QueryManager &query() {
    if (g) return *g;
    if (rf) return *rf;
    return *crf;
  }
  strct::GibbsSampler &gibbs() {
    if (g) return *g;
    if (rf) return *rf;
    return *crf;
  }
  strct::BeliefAware &belief() { return query(); }
  const strct::FactorsConstGetter &consts() {
    if (g) return *g;
    if (rf) return *rf;
    return *crf;
  }
  const strct::FactorsAware &factors() { return consts(); }
  EFG::train::FactorsTunableGetter *tun() {
    if (rf) return rf.get();
    if (crf) return crf.get();
    return nullptr;
  }
  strct::EvidenceSetter &evs() {
    if (g) return *g;
    return *rf;
  }
  strct::EvidenceRemover &evr() {
    if (g) return *g;
    return *rf;
  }
  strct::FactorsConstInserter &cins() {
    if (g) return *g;
    return *rf;
  }
};

struct World {
  int nv = 0;
  std::vector<std::size_t> sz;
  std::map<int, Model> ms;
  std::map<int, FDef> defs;                     // current definition of each factor
  std::map<int, fac::ImmutablePtr> objs;        // bound factor objects

  cat::VariablePtr var(Model &m, int v) {
    auto it = m.vt->find(v);
    if (it == m.vt->end()) {
      it = m.vt->emplace(v, cat::make_variable(sz[v - 1], varName(v))).first;
    }
    return it->second;
  }
  cat::VariablePtr clone(int v) { return cat::make_variable(sz[v - 1], varName(v)); }
  int varId(const std::string &name) {
    for (int v = 1; v <= nv; ++v) {
      if (varName(v) == name) {
        return v;
      }
    }
    fail("struct", "unknown variable " + name + " reported");
  }

  std::shared_ptr<fac::Factor> shape(const std::vector<cat::VariablePtr> &vars,
                                     const std::vector<float> &imgs) {
    auto f = std::make_shared<fac::Factor>(cat::Group{vars});
    std::size_t k = 0;
    cat::GroupRange r{f->function().vars()};
    for (; r != cat::RANGE_END; ++r, ++k) {
      if (imgs[k] != 0) {
        f->set(*r, imgs[k]);
      }
    }
    return f;
  }
  fac::ImmutablePtr makeFactor(Model &m, const FDef &d) {
    std::vector<cat::VariablePtr> vars;
    for (auto v : d.sc) {
      vars.push_back(var(m, v));
    }
    auto s = shape(vars, rawImages(d));
    if (d.k == "plain") {
      if (probing && d.sc.size() == 2) {
        return std::make_shared<ProbeFactor>(*s);
      }
      return s;
    }
    auto e = std::make_shared<fac::FactorExponential>(*s, realW(d.w));
    if (d.k == "frozen") {
      return std::make_shared<fac::Factor>(*e, fac::Factor::CloneTrasformedImagesTag{});
    }
    return e;
  }

  // does obj hold the content of definition d (as a function of assignments)?
  std::string contentDiff(const fac::Immutable &obj, const FDef &d) {
    const auto &fvars = obj.function().vars().getVariables();
    if (fvars.size() != d.sc.size()) {
      return "different number of variables";
    }
    std::vector<std::size_t> pos; // position in d.sc of each variable of obj
    for (auto &v : fvars) {
      std::size_t p = 0;
      while (p < d.sc.size() && varName(d.sc[p]) != v->name()) {
        ++p;
      }
      if (p == d.sc.size()) {
        return "other variables";
      }
      if (v->size() != sz[d.sc[p] - 1]) {
        return "variable " + v->name() + " with other size";
      }
      pos.push_back(p);
    }
    auto raw = rawImages(d);
    std::string res;
    auto chk = [&](const std::vector<std::size_t> &comb, double img, double exp, const char *what) {
      if (!(std::abs(img - exp) <= 2e-6 * std::abs(exp))) {
        res = cat_(what, " of ", show(comb), " is ", img, " instead of ", exp);
      }
    };
    auto at = [&](const std::vector<std::size_t> &comb) {
      std::size_t i = 0;
      std::vector<std::size_t> c(comb.size());
      for (std::size_t k = 0; k < comb.size(); ++k) {
        c[pos[k]] = comb[k];
      }
      for (std::size_t k = 0; k < c.size(); ++k) {
        i = i * sz[d.sc[k] - 1] + c[k];
      }
      return static_cast<double>(raw[i]);
    };
    auto *as_exp = dynamic_cast<const fac::FactorExponential *>(&obj);
    if (d.k == "exp") {
      if (as_exp == nullptr) {
        return "not exponential any more";
      }
      chk({}, as_exp->getWeight(), realW(d.w), "weight");
    } else if (as_exp != nullptr) {
      return "exponential instead of plain";
    }
    if (!res.empty()) {
      return res;
    }
    obj.function().forEachCombination<true>([&](const auto &comb, float img) {
      const double e = d.k == "plain" ? at(comb) : std::exp(d.w * LN2 / RS * at(comb));
      if (!(std::abs(img - e) <= 1e-5 * std::abs(e))) {
        res = cat_("image of ", show(comb), " is ", img, " instead of ", e);
      }
    });
    if (d.k == "exp") {
      obj.function().forEachCombination<false>(
          [&](const auto &comb, float img) { chk(comb, img, at(comb), "raw image"); });
    }
    return res;
  }
  std::string fstr(int fid) {
    auto &d = defs.at(fid);
    return cat_("factor ", fid, " (", d.k, ") on ", show(d.sc));
  }

  // bind the factors fids to distinct objects of the list; error when impossible
  void bindAll(const std::vector<int> &fids, std::vector<fac::ImmutablePtr> have,
               const std::string &where) {
    if (fids.size() != have.size()) {
      fail("struct", cat_(where, ": ", have.size(), " factors reported instead of ", fids.size()));
    }
    std::vector<int> open;
    for (auto f : fids) {
      auto it = objs.find(f);
      if (it == objs.end()) {
        open.push_back(f);
        continue;
      }
      auto h = std::find(have.begin(), have.end(), it->second);
      if (h == have.end()) {
        fail("struct", cat_(where, ": ", fstr(f), " is not reported"));
      }
      have.erase(h);
    }
    for (auto f : open) {
      std::string why = "no candidate left";
      bool found = false;
      for (auto h = have.begin(); h != have.end(); ++h) {
        auto diff = contentDiff(**h, defs.at(f));
        if (diff.empty()) {
          objs[f] = *h;
          have.erase(h);
          found = true;
          break;
        }
        if (diff != "other variables" && diff != "different number of variables") {
          why = diff;
        }
      }
      if (!found) {
        fail("struct", cat_(where, ": ", fstr(f), " is not reported (", why, ")"));
      }
    }
  }

  void checkStruct(int mi, const json &st) {
    auto &m = ms.at(mi);
    stats().add("structures");
    // variables
    std::set<std::string> exp;
    for (int v : st["vars"]) {
      exp.insert(varName(v));
    }
    const auto &all = m.state().getAllVariables();
    std::set<std::string> got;
    for (auto &v : all) {
      if (!got.insert(v->name()).second) {
        fail("struct", "variable " + v->name() + " listed twice");
      }
      if (v->size() != sz[varId(v->name()) - 1]) {
        fail("struct", "variable " + v->name() + " has changed its size");
      }
    }
    if (exp != got) {
      fail("struct", cat_(got.size(), " variables reported instead of ", exp.size()));
    }
    // evidences
    std::set<std::string> expO;
    for (int v = 1; v <= nv; ++v) {
      if (st["ev"][v - 1].get<int>() >= 0) {
        expO.insert(varName(v));
      }
    }
    std::set<std::string> gotO, gotH;
    const auto obs = m.state().getObservedVariables();
    const auto hid = m.state().getHiddenVariables();
    for (auto &v : obs) {
      gotO.insert(v->name());
    }
    for (auto &v : hid) {
      gotH.insert(v->name());
    }
    if (gotO != expO || obs.size() != expO.size()) {
      fail("struct", cat_("observed variables are ", gotO.size(), " other than the expected ", expO.size()));
    }
    std::set<std::string> expH;
    for (auto &n : exp) {
      if (!expO.count(n)) {
        expH.insert(n);
      }
    }
    if (gotH != expH || hid.size() != expH.size()) {
      fail("struct", cat_("hidden variables are ", gotH.size(), " other than the expected ", expH.size()));
    }
    const auto &evd = m.state().getEvidences();
    if (evd.size() != expO.size()) {
      fail("struct", "evidences do not match the observed variables");
    }
    for (auto &[var, val] : evd) {
      if (static_cast<int>(val) != st["ev"][varId(var->name()) - 1].get<int>()) {
        fail("struct", cat_("evidence of ", var->name(), " is ", val));
      }
    }
    for (auto &n : exp) {
      if (m.state().findVariable(n)->name() != n) {
        fail("struct", "findVariable finds another variable than " + n);
      }
    }
    // constant factors
    auto cf = st["cf"].get<std::vector<int>>();
    {
      const auto &c = m.consts().getConstFactors();
      bindAll(cf, std::vector<fac::ImmutablePtr>(c.begin(), c.end()), "constant factors");
    }
    auto cl = st["cl"].get<std::vector<std::vector<int>>>();
    std::size_t ntun = 0;
    if (auto *t = m.tun()) {
      auto rep = t->getTunableClusters();
      if (rep.size() != cl.size()) {
        fail("struct", cat_(rep.size(), " tunable clusters reported instead of ", cl.size()));
      }
      std::set<fac::ImmutablePtr> tunset;
      for (std::size_t i = 0; i < cl.size(); ++i) {
        std::vector<fac::ImmutablePtr> have;
        if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&rep[i])) {
          have.push_back(*one);
        } else {
          for (auto &f : std::get<EFG::train::TunableClusters>(rep[i])) {
            have.push_back(f);
          }
        }
        bindAll(cl[i], have, cat_("tunable cluster ", i + 1));
        for (auto &h : have) {
          tunset.insert(h);
        }
        ntun += have.size();
      }
      std::set<fac::ImmutablePtr> all_tun(t->getTunableFactors().begin(), t->getTunableFactors().end());
      if (tunset != all_tun || tunset.size() != ntun) {
        fail("struct", "tunable factors differ from those of the clusters");
      }
      auto w = t->getWeights();
      if (w.size() != cl.size()) {
        fail("struct", cat_(w.size(), " weights for ", cl.size(), " clusters"));
      }
      for (std::size_t i = 0; i < w.size(); ++i) {
        const float e = realW(st["w"][i].get<double>());
        if (!(std::abs(w[i] - e) <= 1e-5f * std::abs(e))) {
          fail("struct", cat_("weight of cluster ", i + 1, " is ", w[i], " instead of ", e));
        }
      }
    } else if (!cl.empty()) {
      fail("struct", "clusters expected in a model without tunable factors");
    }
    const auto &allf = m.factors().getAllFactors();
    if (allf.size() != cf.size() + ntun) {
      fail("struct", cat_(allf.size(), " factors reported in total instead of ", cf.size() + ntun));
    }
    for (auto f : cf) {
      if (!allf.count(objs.at(f))) {
        fail("struct", fstr(f) + " missing from all the factors");
      }
      checkContent(f);
    }
    for (auto &c : cl) {
      for (auto f : c) {
        if (!allf.count(objs.at(f))) {
          fail("struct", fstr(f) + " missing from all the factors");
        }
        checkContent(f);
      }
    }
  }
  void checkContent(int f) {
    stats().add("factors");
    auto diff = contentDiff(*objs.at(f), defs.at(f));
    if (!diff.empty()) {
      fail("struct", fstr(f) + ": " + diff);
    }
  }
};

void checkDistr(const std::string &kind, const std::string &what, const std::vector<float> &got,
                const std::vector<double> &exp, double tol) {
  stats().add(kind);
  if (got.size() != exp.size()) {
    fail(kind, cat_(what, ": ", got.size(), " values instead of ", exp.size()));
  }
  double s = 0;
  for (auto e : exp) {
    s += e;
  }
  double gs = 0;
  for (std::size_t k = 0; k < exp.size(); ++k) {
    gs += got[k];
    if (!(std::abs(got[k] - exp[k] / s) <= tol) || !(got[k] >= 0)) {
      fail(kind, cat_(what, ": got ", show(got), " expected ", show(exp), " / ", s));
    }
  }
  if (!(std::abs(gs - 1) < 1e-4)) {
    fail(kind, cat_(what, ": sums to ", gs));
  }
}

std::size_t checkArg(const std::string &kind, const std::string &what, std::size_t got,
                     const std::vector<double> &mm) {
  stats().add(kind);
  double mx = 0;
  for (auto e : mm) {
    mx = std::max(mx, e);
  }
  if (got >= mm.size() || mm[got] < mx * (1 - 1e-4)) {
    fail(kind, cat_(what, ": got ", got, " but the max-marginals are ", show(mm)));
  }
  return got;
}

struct Replayer {
  World w;

  std::vector<float> askMarg(Model &m, int v, const std::string &by, std::size_t thr) {
    if (by == "name") {
      return m.query().getMarginalDistribution(varName(v), thr);
    }
    return m.query().getMarginalDistribution(by == "clone" ? w.clone(v) : w.var(m, v), thr);
  }
  std::size_t askMap(Model &m, int v, const std::string &by, std::size_t thr) {
    if (by == "name") {
      return m.query().getMAP(varName(v), thr);
    }
    return m.query().getMAP(by == "clone" ? w.clone(v) : w.var(m, v), thr);
  }
  fac::Factor askJoint(Model &m, const std::vector<int> &g, const std::string &by, std::size_t thr) {
    if (by == "name") {
      std::vector<std::string> names;
      for (auto v : g) {
        names.push_back(varName(v));
      }
      return m.query().getJointMarginalDistribution(names, thr);
    }
    cat::VariablesSoup vars;
    for (auto v : g) {
      vars.push_back(by == "clone" ? w.clone(v) : w.var(m, v));
    }
    return m.query().getJointMarginalDistribution(cat::Group{vars}, thr);
  }

  void checkReport(Model &m, const json &op, strct::PropagationKind kind) {
    if (!judge("report") || op["rep"].empty()) {
      return;
    }
    stats().add("reports");
    if (!m.belief().hasPropagationResult()) {
      fail("report", "no propagation report after a query");
    }
    const auto &r = m.belief().getLastPropagationResult();
    if (r.propagation_kind_done != kind) {
      fail("report", "wrong kind of propagation reported");
    }
    std::multiset<std::pair<std::size_t, bool>> exp, got;
    bool all_tree = true;
    for (auto &c : op["rep"]) {
      exp.emplace(c["n"].get<std::size_t>(), c["tree"].get<bool>());
      all_tree = all_tree && c["tree"].get<bool>();
    }
    for (auto &c : r.structures) {
      got.emplace(c.size, c.tree_or_loopy_graph);
    }
    if (exp != got) {
      fail("report", cat_("the report lists ", got.size(), " parts, expected ", exp.size(),
                          " (or sizes/kinds differ)"));
    }
    if (all_tree && !r.was_completed) {
      fail("report", "propagation over trees reported as not completed");
    }
    const bool weak = op.contains("weak") ? op["weak"].get<bool>() : false;
    const auto it = m.belief().getPropagationContext().max_iterations_loopy_propagation;
    if (!all_tree && it == 0 && r.was_completed) {
      fail("report", "propagation over a cycle with 0 iterations reported as completed");
    }
    if (m.rec) {
      auto &rec = *m.rec;
      if (!rec.now.empty()) {
        rec.last = rec.now;
        rec.now.clear();
      }
      if (!all_tree && rec.last) {
        stats().add("strategy_reports");
        std::multiset<std::size_t> want, asked;
        for (auto &c : r.structures) {
          if (!c.tree_or_loopy_graph) {
            want.insert(c.size);
          }
        }
        bool ok = true;
        for (auto &a : *rec.last) {
          asked.insert(a.size);
          ok = ok && a.answer;
          if (a.kind != kind || a.iterations != it) {
            fail("report", "the installed strategy was asked another kind of propagation, or other iterations");
          }
        }
        if (want != asked) {
          fail("report", cat_("the installed strategy was asked ", asked.size(), " parts, but the report lists ",
                              want.size(), " parts with cycles"));
        }
        if (ok != r.was_completed) {
          fail("report", cat_("propagation reported as ", r.was_completed ? "" : "not ",
                              "completed, but the strategy propagating over the cycles said the opposite"));
        }
      }
    }
    if (!all_tree && weak && !m.denied && kind == strct::PropagationKind::SUM && it >= 1000 && !r.was_completed) {
      fail("report", "propagation over a weakly coupled cycle reported as not completed");
    }
  }

  // joint table of the blocks, in the order of g
  std::vector<double> blockTable(const std::vector<int> &g, const json &blocks) {
    std::vector<std::size_t> sizes;
    for (auto v : g) {
      sizes.push_back(w.sz[v - 1]);
    }
    std::vector<double> res;
    cat::GroupRange r{sizes};
    for (; r != cat::RANGE_END; ++r) {
      double val = 1;
      for (auto &b : blocks) {
        std::size_t i = 0;
        for (int v : b["vs"]) {
          std::size_t k = std::find(g.begin(), g.end(), v) - g.begin();
          i = i * w.sz[v - 1] + (*r)[k];
        }
        double s = 0;
        for (double t : b["t"]) {
          s += t;
        }
        val *= b["t"][i].get<double>() / s;
      }
      res.push_back(val);
    }
    return res;
  }

  std::unique_ptr<Model> freshModel(const json &op, Model &like) {
    auto res = std::make_unique<Model>();
    res->ty = op["c"]["ty"];
    res->vt = like.vt;
    if (res->ty == "graph") {
      res->g = std::make_unique<model::Graph>();
    } else {
      res->rf = std::make_unique<model::RandomField>();
    }
    auto cf = op["c"]["cf"].get<std::vector<int>>();
    auto cl = op["c"]["cl"].get<std::vector<std::vector<int>>>();
    const int perm = op["perm"];
    auto setEv = [&] {
      for (int v = w.nv; v >= 1; --v) {
        int x = op["c"]["ev"][v - 1];
        if (x >= 0) {
          res->evs().setEvidence(w.var(like, v), x);
        }
      }
    };
    auto addC = [&] {
      if (perm & 1) {
        std::reverse(cf.begin(), cf.end());
      }
      for (auto f : cf) {
        res->cins().addConstFactor(w.makeFactor(like, w.defs.at(f)));
      }
    };
    auto addT = [&] {
      // one cluster per factor here: sharing does not matter for the answers
      for (auto &c : cl) {
        for (auto f : c) {
          res->rf->addTunableFactor(
              std::dynamic_pointer_cast<fac::FactorExponential>(
                  std::const_pointer_cast<fac::Immutable>(w.makeFactor(like, w.defs.at(f)))));
        }
      }
    };
    if (perm & 2) {
      addT();
      addC();
    } else {
      addC();
      addT();
    }
    setEv();
    return res;
  }

  void compareAnswers(Model &a, Model &b, const std::string &kind, double tol, const std::string &tag) {
    for (auto &v : a.state().getAllVariables()) {
      auto pa = a.query().getMarginalDistribution(v->name());
      auto pb = b.query().getMarginalDistribution(v->name());
      stats().add(tag);
      if (pa.size() != pb.size()) {
        fail(tag, "marginals of different size for " + v->name());
      }
      for (std::size_t k = 0; k < pa.size(); ++k) {
        if (!(std::abs(pa[k] - pb[k]) <= tol)) {
          fail(tag, cat_(kind, ": marginal of ", v->name(), " is ", show(pa), " in one model and ",
                         show(pb), " in the other"));
        }
      }
    }
  }
  void compareMap(Model &a, Model &b, const std::string &tag) {
    // decisive only when the max-marginals of a are not tied: ask b for each
    for (auto &v : a.state().getAllVariables()) {
      auto xa = a.query().getMAP(v->name());
      auto xb = b.query().getMAP(v->name());
      stats().add(tag);
      if (xa != xb && !tiedMap(a, v->name())) {
        fail(tag, cat_("MAP of ", v->name(), " is ", xa, " in one model and ", xb, " in the other"));
      }
    }
  }
  // cannot be told from outside: the specification says which variables are tied
  std::set<std::string> tied;
  bool tiedMap(Model &, const std::string &n) { return tied.count(n) != 0; }

  void checkSamples(Model &m, const std::vector<std::vector<std::size_t>> &s, std::size_t n,
                    const json &ev, const std::string &kind) {
    if (s.size() != n) {
      fail(kind, cat_(s.size(), " samples instead of ", n));
    }
    const auto &all = m.state().getAllVariables();
    for (auto &c : s) {
      if (c.size() != all.size()) {
        fail(kind, cat_("sample with ", c.size(), " values instead of ", all.size()));
      }
      for (std::size_t k = 0; k < c.size(); ++k) {
        if (c[k] >= all[k]->size()) {
          fail(kind, cat_("value ", c[k], " out of range for ", all[k]->name()));
        }
        if (!ev.is_null()) {
          int e = ev[w.varId(all[k]->name()) - 1];
          if (e >= 0 && static_cast<int>(c[k]) != e) {
            fail(kind, cat_("observed variable ", all[k]->name(), " sampled at ", c[k], " instead of ", e));
          }
        }
      }
    }
  }

  void step(const json &op) {
    const std::string o = op["o"];
    stats().add("steps");
    stats().add("op_" + o);
    int structOf = op.contains("m") ? op["m"].get<int>() : 0;
    for (auto &[k, x] : w.ms) {
      (void)k;
      if (x.rec && !x.rec->now.empty()) {
        // a call whose report was not looked at
        x.rec->last.reset();
        x.rec->now.clear();
      }
    }
    if (o == "new") {
      Model m;
      m.ty = op["ty"];
      // all the models are over the same variables
      m.vt = w.ms.count(1) ? w.ms.at(1).vt : std::make_shared<VarTable>();
      if (m.ty == "graph") {
        m.g = std::make_unique<model::Graph>();
      } else {
        m.rf = std::make_unique<model::RandomField>();
      }
      w.ms.emplace(op["m"].get<int>(), std::move(m));
      return;
    }
    auto &m = w.ms.at(structOf);
    if (o == "addC") {
      int f = op["f"];
      auto d = parseDef(op["def"], scaleOf(f));
      auto obj = w.makeFactor(m, d);
      if (op["how"] == "copy") {
        auto before = m.consts().getConstFactors();
        m.cins().copyConstFactor(*obj);
        for (auto &c : m.consts().getConstFactors()) {
          if (!before.count(c)) {
            w.objs[f] = c;
          }
        }
        if (d.k == "exp") {
          d.k = "frozen";
        }
      } else {
        m.cins().addConstFactor(obj);
        w.objs[f] = obj;
      }
      w.defs[f] = d;
    } else if (o == "addT") {
      int f = op["f"];
      auto d = parseDef(op["def"], scaleOf(f));
      auto obj = std::dynamic_pointer_cast<fac::FactorExponential>(
          std::const_pointer_cast<fac::Immutable>(w.makeFactor(m, d)));
      std::optional<cat::VariablesSet> share;
      if (!op["share"].empty()) {
        share.emplace();
        for (int v : op["share"]) {
          share->emplace(w.var(m, v));
        }
      }
      if (op["how"] == "copy") {
        auto before = m.tun()->getTunableFactors();
        m.rf->copyTunableFactor(*obj, share);
        for (auto &c : m.tun()->getTunableFactors()) {
          if (!before.count(c)) {
            w.objs[f] = c;
          }
        }
      } else {
        m.rf->addTunableFactor(obj, share);
        w.objs[f] = obj;
      }
      d.w = op["w"];
      w.defs[f] = d;
    } else if (o == "addErr") {
      addErr(m, op);
    } else if (o == "setE") {
      int v = op["v"];
      std::size_t x = op["x"];
      if (op["by"] == "name") {
        m.evs().setEvidence(varName(v), x);
      } else {
        m.evs().setEvidence(op["by"] == "clone" ? w.clone(v) : w.var(m, v), x);
      }
    } else if (o == "remE") {
      auto S = op["S"].get<std::vector<int>>();
      if (op["how"] == "all") {
        m.evr().removeAllEvidences();
      } else if (op["how"] == "one") {
        if (op["by"] == "name") {
          m.evr().removeEvidence(varName(S[0]));
        } else {
          m.evr().removeEvidence(op["by"] == "clone" ? w.clone(S[0]) : w.var(m, S[0]));
        }
      } else {
        removeSet(m, S, op["by"]);
      }
    } else if (o == "evErr") {
      evErr(m, op);
    } else if (o == "setW") {
      std::vector<float> ws;
      for (double x : op["ws"]) {
        ws.push_back(realW(x));
      }
      if (session) {
        setThroughTrainer(ws);
      } else if (op["ones"].get<bool>() && unit_weights) {
        EFG::train::set_ones(*m.tun());
      } else {
        m.tun()->setWeights(ws);
      }
      for (auto &[f, x] : op["nw"].items()) {
        (void)f;
        w.defs.at(x["f"].get<int>()).w = x["w"];
      }
    } else if (o == "wErr") {
      std::vector<float> ws(op["n"].get<std::size_t>(), 1.f);
      auto act = [&] { m.tun()->setWeights(ws); };
      expectReject("setting a wrong number of weights", act);
    } else if (o == "marg") {
      doMarg(m, op["v"], op["ans"].get<std::vector<double>>(), op["tree"], op);
      checkReport(m, op, strct::PropagationKind::SUM);
    } else if (o == "margAll") {
      for (auto &a : op["ans"]) {
        doMarg(m, a["v"], a["a"].get<std::vector<double>>(), a["tree"], op);
      }
      checkReport(m, op, strct::PropagationKind::SUM);
    } else if (o == "map") {
      int v = op["v"];
      auto x = askMap(m, v, op["by"], op["thr"]);
      if (judge("map")) {
        checkArg("map", "MAP of " + varName(v), x, op["ans"].get<std::vector<double>>());
      }
      checkReport(m, op, strct::PropagationKind::MAP);
    } else if (o == "rep") {
      const bool sum = op["kind"] == "sum";
      if (sum) {
        askMarg(m, op["v"], op["by"], op["thr"]);
      } else {
        askMap(m, op["v"], op["by"], op["thr"]);
      }
      checkReport(m, op, sum ? strct::PropagationKind::SUM : strct::PropagationKind::MAP);
    } else if (o == "hmap") {
      auto hid = m.state().getHiddenVariables();
      auto x = m.query().getHiddenSetMAP(op["thr"].get<std::size_t>());
      if (judge("map")) {
        stats().add("hmap");
        if (x.size() != op["ans"].size()) {
          fail("map", cat_("MAP of the hidden set has ", x.size(), " values instead of ", op["ans"].size()));
        }
        std::size_t k = 0;
        for (auto &v : hid) {
          int id = w.varId(v->name());
          for (auto &a : op["ans"]) {
            if (a["v"].get<int>() == id) {
              checkArg("map", "hidden set MAP of " + v->name(), x[k], a["mm"].get<std::vector<double>>());
            }
          }
          ++k;
        }
      }
      checkReport(m, op, strct::PropagationKind::MAP);
    } else if (o == "joint") {
      auto g = op["g"].get<std::vector<int>>();
      auto f = askJoint(m, g, op["by"], op["thr"]);
      if (judge("joint")) {
        const auto &vs = f.function().vars().getVariables();
        for (std::size_t k = 0; k < g.size(); ++k) {
          if (vs.size() != g.size() || vs[k]->name() != varName(g[k])) {
            fail("joint", "the joint marginal is not laid out in the requested order");
          }
        }
        checkDistr("joint", cat_("joint marginal of ", show(g)), f.getProbabilities(),
                   blockTable(g, op["blocks"]), TOL);
      }
      record(m, true, op, f.getProbabilities(), cat_("joint marginal of ", show(g)));
    } else if (o == "pair") {
      doPair(m, op);
    } else if (o == "qErr") {
      qErr(m, op);
    } else if (o == "strat") {
      if (op["kind"] == "null") {
        expectReject("installing a null strategy", [&] { m.belief().setLoopyPropagationStrategy(nullptr); });
      } else {
        m.rec = std::make_shared<Recorder>();
        m.denied = m.denied || op["kind"] == "deny";
        m.belief().setLoopyPropagationStrategy(std::make_unique<RecordingStrategy>(
            m.rec, op["kind"] == "deny", op["seed"].get<unsigned>()));
      }
    } else if (o == "iter") {
      m.belief().setPropagationContext(strct::PropagationContext{op["n"].get<std::size_t>()});
    } else if (o == "fresh") {
      auto fr = freshModel(op, m);
      if (judge("fresh")) {
        const double tol = op["tree"].get<bool>() ? TOL : LOOPTOL;
        if (op["kind"] == "map") {
          tied.clear();
          for (int v : op["tied"]) {
            tied.insert(varName(v));
          }
          compareMap(m, *fr, "fresh");
          compareAnswers(m, *fr, "fresh", tol, "fresh");
        } else {
          compareAnswers(m, *fr, "fresh", tol, "fresh");
          // again: the answer must not change
          compareAnswers(m, m, "repeated", 1e-6, "repeat");
        }
      }
    } else if (o == "grad") {
      doGrad(m, op);
    } else if (o == "copy") {
      Model n;
      n.ty = op["ty"];
      n.vt = m.vt;
      if (n.ty == "graph") {
        if (op["how"] == "ctor") {
          n.g = std::make_unique<model::Graph>(*m.g);
        } else {
          n.g = std::make_unique<model::Graph>();
          n.g->absorb(m.factors(), op["deep"]);
        }
      } else {
        if (op["how"] == "ctor") {
          n.rf = std::make_unique<model::RandomField>(*m.rf);
        } else {
          n.rf = std::make_unique<model::RandomField>();
          n.rf->absorb(m.factors(), op["deep"]);
        }
      }
      copyDefs(op, op["deep"], n.ty == "graph", m);
      structOf = op["n"];
      w.ms.emplace(structOf, std::move(n));
    } else if (o == "absorb") {
      auto &d = w.ms.at(op["d"].get<int>());
      if (d.g) {
        d.g->absorb(m.factors(), op["deep"]);
      } else {
        d.rf->absorb(m.factors(), op["deep"]);
      }
      copyDefs(op, op["deep"], d.ty == "graph", m);
      structOf = op["d"];
    } else if (o == "json") {
      doJson(m, op);
      structOf = op["n"];
    } else if (o == "crf") {
      if (!op["ok"].get<bool>()) {
        auto act = [&] {
          if (m.crf) {
            model::ConditionalRandomField c{*m.crf};
          } else {
            model::ConditionalRandomField c{*m.rf, op["deep"].get<bool>()};
          }
        };
        expectReject("building a conditional random field from an unsuitable model", act);
        return;
      }
      Model n;
      n.ty = "crf";
      n.vt = m.vt;
      if (m.crf) {
        n.crf = std::make_unique<model::ConditionalRandomField>(*m.crf);
      } else {
        n.crf = std::make_unique<model::ConditionalRandomField>(*m.rf, op["deep"].get<bool>());
      }
      copyDefs(op, op["deep"], false, m);
      structOf = op["n"];
      w.ms.emplace(structOf, std::move(n));
    } else if (o == "crfE") {
      std::vector<std::size_t> vals;
      const std::string bad = op["bad"];
      for (auto &v : m.state().getObservedVariables()) {
        vals.push_back(op["val"][w.varId(v->name()) - 1].get<std::size_t>());
      }
      if (bad == "short") {
        vals.pop_back();
      }
      if (bad == "long") {
        vals.push_back(0);
      }
      auto act = [&] { m.crf->setEvidences(vals); };
      if (bad.empty()) {
        act();
      } else {
        expectReject("setting " + bad + " evidence values of a conditional random field", act);
      }
    } else if (o == "sample") {
      doSample(m, op);
    } else if (o == "freq") {
      doFreq(m, op);
    } else if (o == "mts") {
      doMts(m, op);
    } else {
      throw std::runtime_error("driver: unknown op " + o);
    }
    if (judge("struct") && op.contains("st") && !op["st"].empty()) {
      w.checkStruct(structOf, op["st"][0]);
    } else if (op.contains("st") && !op["st"].empty() && op.contains("new")) {
      bindNew(structOf, op["st"][0]);
    }
    if (op.contains("others") && judge("struct")) {
      for (auto &x : op["others"]) {
        w.checkStruct(x["m"], x["st"]);
      }
    }
    // answers of a copy equal those of its source
    if (judge("twin") && op.contains("twin") && op["twin"].get<bool>()) {
      compareAnswers(w.ms.at(op["m"].get<int>()), w.ms.at(structOf), o, TOL, "twin");
    }
  }
  void bindNew(int mi, const json &st) {
    try {
      w.checkStruct(mi, st);
    } catch (const Mismatch &) {
    }
  }

  void copyDefs(const json &op, bool deep, bool toGraph, Model &) {
    for (auto &n : op["new"]) {
      int f = n["f"];
      int from = n["from"];
      if (f == from) {
        continue;
      }
      w.defs[f] = parseDef(n["def"], w.defs.at(from).s);
    }
    (void)deep;
    (void)toGraph;
  }

  template <typename F> void expectReject(const std::string &what, F &&f) {
    if (judge("reject")) {
      mustThrow(what, f);
      return;
    }
    try {
      f();
    } catch (const std::exception &) {
    }
  }

  void doMarg(Model &m, int v, const std::vector<double> &ans, bool tree, const json &op) {
    auto p = askMarg(m, v, op["by"], op["thr"]);
    if (tree) {
      if (judge("marg")) {
        checkDistr("marg", cat_("marginal of ", varName(v)), p, ans, TOL);
      }
    } else if (judge("loopy")) {
      const auto &r = m.belief().getLastPropagationResult();
      double tot = 0;
      for (auto x : p) {
        if (!(x >= 0) || !std::isfinite(x)) {
          fail("loopy", cat_("marginal of ", varName(v), " is ", show(p)));
        }
        tot += x;
      }
      if (p.size() != ans.size() || !(std::abs(tot - 1) < 1e-4)) {
        fail("loopy", cat_("marginal of ", varName(v), " is ", show(p)));
      }
      if (r.was_completed && op["weak"].get<bool>()) {
        checkDistr("loopy", cat_("approximate marginal of ", varName(v)), p, ans, LOOPTOL);
      }
    }
    if (judge("repeat")) {
      auto q = askMarg(m, v, "ptr", 1);
      stats().add("repeat");
      for (std::size_t k = 0; k < p.size(); ++k) {
        if (!(std::abs(p[k] - q[k]) <= 1e-6)) {
          fail("repeat", "repeating the query changes the answer");
        }
      }
    }
    record(m, tree, op, p, cat_("marginal of ", varName(v)));
  }
  // answers given, to be compared with those of the same history with one thread
  struct Given {
    std::vector<float> ans;
    double tol; // negative: not comparable
    std::string what;
  };
  std::vector<Given> given;
  void record(Model &m, bool tree, const json &op, const std::vector<float> &p, const std::string &what) {
    if (!judge("threads")) {
      return;
    }
    double tol = TOL;
    if (!tree) {
      const bool ok = op.contains("weak") && op["weak"].get<bool>() &&
                      m.belief().getLastPropagationResult().was_completed;
      tol = ok ? 0.02 : -1;
    }
    given.push_back(Given{p, tol, what});
  }

  // two connected variables of a part that may have cycles
  void doPair(Model &m, const json &op) {
    auto g = op["g"].get<std::vector<int>>();
    const std::size_t thr = op["thr"];
    auto f = askJoint(m, g, "ptr", thr);
    record(m, op["tree"], op, f.getProbabilities(), cat_("joint marginal of ", show(g)));
    if (!judge("loopy")) {
      return;
    }
    auto j = f.getProbabilities();
    stats().add("pairs");
    const std::size_t na = w.sz[g[0] - 1], nb = w.sz[g[1] - 1];
    std::vector<double> pa(na, 0), pb(nb, 0);
    double tot = 0;
    for (std::size_t a = 0; a < na; ++a) {
      for (std::size_t b = 0; b < nb; ++b) {
        const float x = j.at(a * nb + b);
        if (!(x >= 0) || !std::isfinite(x)) {
          fail("loopy", cat_("joint of ", show(g), " is ", show(j)));
        }
        pa[a] += x;
        pb[b] += x;
        tot += x;
      }
    }
    if (!(std::abs(tot - 1) < 1e-4)) {
      fail("loopy", cat_("joint of ", show(g), " sums to ", tot));
    }
    const auto &r = m.belief().getLastPropagationResult();
    if (r.propagation_kind_done != strct::PropagationKind::SUM) {
      fail("report", "wrong kind of propagation reported");
    }
    if (!r.was_completed) {
      return;
    }
    auto cmp = [&](int v, const std::vector<double> &p) {
      auto q = askMarg(m, v, "ptr", thr);
      for (std::size_t k = 0; k < p.size(); ++k) {
        if (!(std::abs(q[k] - p[k]) < 1.5e-3)) {
          fail("loopy", cat_("propagation reported as completed, but the marginal of ", varName(v), " is ",
                             show(q), " and ", show(p), " according to the joint of ", show(g)));
        }
      }
    };
    cmp(g[0], pa);
    cmp(g[1], pb);
    if (op["tree"].get<bool>()) {
      checkDistr("loopy", "pair in a tree", j, op["ans"].get<std::vector<double>>(), TOL);
    } else if (op["weak"].get<bool>()) {
      checkDistr("loopy", "pair in a weakly coupled cycle", j, op["ans"].get<std::vector<double>>(), LOOPTOL);
    }
  }

  void removeSet(Model &m, const std::vector<int> &S, const std::string &by) {
    if (by == "name") {
      std::unordered_set<std::string> names;
      for (auto v : S) {
        names.insert(varName(v));
      }
      m.evr().removeEvidences(names);
      return;
    }
    cat::VariablesSet vars;
    for (auto v : S) {
      vars.emplace(by == "clone" ? w.clone(v) : w.var(m, v));
    }
    m.evr().removeEvidences(vars);
  }

  void insert(Model &m, bool tun, const std::vector<cat::VariablePtr> &vars,
              const std::optional<cat::VariablesSet> &share = std::nullopt) {
    auto f = std::make_shared<fac::Factor>(cat::Group{vars});
    cat::GroupRange r{f->function().vars()};
    float x = 1;
    for (; r != cat::RANGE_END; ++r) {
      f->set(*r, x);
      x += 1;
    }
    if (tun) {
      m.rf->addTunableFactor(std::make_shared<fac::FactorExponential>(*f, 0.7f), share);
    } else {
      m.cins().addConstFactor(f);
    }
  }

  void addErr(Model &m, const json &op) {
    const std::string k = op["kind"];
    const bool tun = op["tun"];
    int v = op["v"], u = op["u"];
    auto other = [&](int x) { return cat::make_variable(w.sz[x - 1] + 1, varName(x)); };
    expectReject("insertion of a bad factor (" + k + ")", [&] {
      if (k == "null") {
        if (tun) {
          m.rf->addTunableFactor(nullptr);
        } else {
          m.cins().addConstFactor(nullptr);
        }
      } else if (k == "ternary") {
        insert(m, tun, {cat::make_variable(2, "t1"), cat::make_variable(2, "t2"), cat::make_variable(2, "t3")});
      } else if (k == "dupfac") {
        auto obj = w.objs.at(op["f"].get<int>());
        auto e = std::dynamic_pointer_cast<fac::FactorExponential>(std::const_pointer_cast<fac::Immutable>(obj));
        if (tun && e) {
          m.rf->addTunableFactor(e);
        } else {
          m.cins().addConstFactor(obj);
        }
      } else if (k == "dupedge") {
        auto p = op["p"].get<std::vector<int>>();
        if (op["u"].get<int>() % 2) {
          std::swap(p[0], p[1]);
        }
        insert(m, tun, {w.var(m, p[0]), w.var(m, p[1])});
      } else if (k == "clone1") {
        insert(m, tun, {w.clone(v)});
      } else if (k == "size1") {
        insert(m, tun, {other(v)});
      } else if (k == "clone2a") {
        insert(m, tun, {w.clone(v), w.var(m, u)});
      } else if (k == "clone2b") {
        insert(m, tun, {w.var(m, u), w.clone(v)});
      } else if (k == "size2a") {
        insert(m, tun, {other(v), w.var(m, u)});
      } else if (k == "size2b") {
        insert(m, tun, {w.var(m, u), other(v)});
      } else if (k == "badshare") {
        cat::VariablesSet g;
        for (int x : op["g"]) {
          g.emplace(w.var(m, x));
        }
        std::vector<cat::VariablePtr> vars;
        for (int x : op["sc"]) {
          vars.push_back(w.var(m, x));
        }
        insert(m, true, vars, g);
      } else {
        throw std::runtime_error("driver: unknown kind " + k);
      }
    });
  }

  void evErr(Model &m, const json &op) {
    const std::string k = op["kind"];
    int v = op["v"];
    std::size_t x = op["x"];
    const bool by_name = op["by"] == "name";
    auto S = op["S"].get<std::vector<int>>();
    expectReject("evidence call (" + k + ")", [&] {
      if (k == "unknownName") {
        m.evs().setEvidence("no such variable", 0);
      } else if (k == "unknownVar") {
        m.evs().setEvidence(cat::make_variable(2, "no such variable"), 0);
      } else if (k == "remUnknown") {
        if (by_name) {
          m.evr().removeEvidence("no such variable");
        } else {
          m.evr().removeEvidence(cat::make_variable(2, "no such variable"));
        }
      } else if (k == "range") {
        if (by_name) {
          m.evs().setEvidence(varName(v), x);
        } else {
          m.evs().setEvidence(w.var(m, v), x);
        }
      } else if (k == "remHidden") {
        if (by_name) {
          m.evr().removeEvidence(varName(v));
        } else {
          m.evr().removeEvidence(w.var(m, v));
        }
      } else {
        removeSet(m, S, op["by"]);
      }
    });
  }

  void qErr(Model &m, const json &op) {
    const std::string k = op["kind"];
    int v = op["v"];
    auto nv = cat::make_variable(2, "no such variable");
    auto &q = m.query();
    // a query with 0 threads must be rejected when it has work to do; when the
    // answer is already available nothing is run and accepting is fine
    auto dirty = [&] {
      if (m.crf) {
        std::vector<std::size_t> vals;
        for (auto &[var, val] : m.state().getEvidences()) {
          (void)var;
          vals.push_back(val);
        }
        m.crf->setEvidences(vals);
      }
    };
    if (k == "thr0marg" || k == "thr0map" || k == "thr0hmap" || k == "thr0joint") {
      try {
        if (k == "thr0marg") {
          q.getMarginalDistribution(w.var(m, v), 0);
        } else if (k == "thr0map") {
          q.getMAP(w.var(m, v), 0);
        } else if (k == "thr0hmap") {
          q.getHiddenSetMAP(0);
        } else {
          q.getJointMarginalDistribution(std::vector<std::string>{varName(v)}, 0);
        }
      } catch (const std::exception &) {
      }
      return;
    }
    (void)dirty;
    expectReject("query (" + k + ")", [&] {
      if (k == "margName") {
        q.getMarginalDistribution("no such variable");
      } else if (k == "margVar") {
        q.getMarginalDistribution(nv);
      } else if (k == "mapName") {
        q.getMAP("no such variable");
      } else if (k == "mapVar") {
        q.getMAP(nv);
      } else if (k == "jointName") {
        q.getJointMarginalDistribution(std::vector<std::string>{"no such variable"});
      } else if (k == "jointVar") {
        std::vector<cat::VariablePtr> vars;
        if (v != 0) {
          vars.push_back(w.var(m, v));
        }
        vars.push_back(nv);
        q.getJointMarginalDistribution(cat::Group{vars});
      } else if (k == "thr0sample") {
        strct::GibbsSampler::SamplesGenerationContext c;
        c.samples_number = 2;
        m.gibbs().makeSamples(c, 0);
      } else {
        throw std::runtime_error("driver: unknown kind " + k);
      }
    });
  }

  std::vector<std::vector<std::size_t>> combinations(Model &m, const json &samples) {
    std::vector<std::vector<std::size_t>> combs;
    const auto &all = m.state().getAllVariables();
    for (auto &s : samples) {
      auto &c = combs.emplace_back();
      for (auto &v : all) {
        c.push_back(s[w.varId(v->name()) - 1].get<std::size_t>());
      }
    }
    return combs;
  }

  // component i of the exact gradient when the samples in visited are considered
  double expectedGrad(Model &m, const json &op, const std::vector<std::size_t> &visited, std::size_t i) {
    double e = 0;
    for (auto s : visited) {
      e += op["alpha"].at(s)[i].get<double>();
      for (auto &b : op["beta"].at(m.rf ? 0 : s)[i]) {
        e -= b[0].get<double>() / b[1].get<double>();
      }
    }
    return RS * e / visited.size();
  }

#ifdef EFG_LEARNING_ENABLED
  struct Session : ::train::Trainer {
    std::function<void(::train::ParametersAware &)> body;
    void train(::train::ParametersAware &model) final { body(model); }
  };
  ::train::ParametersAware *session = nullptr;

  void setThroughTrainer(const std::vector<float> &ws) {
    ::train::Vect v(ws.size());
    for (std::size_t k = 0; k < ws.size(); ++k) {
      v(k) = ws[k];
    }
    session->setParameters(v);
    checkParameters(ws);
  }

  void checkParameters(const std::vector<float> &ws) {
    auto v = session->getParameters();
    stats().add("trainer_parameters");
    bool same = v.size() == static_cast<Eigen::Index>(ws.size());
    for (std::size_t k = 0; same && k < ws.size(); ++k) {
      same = v(k) == ws[k];
    }
    if (!same) {
      fail("train", "the parameters seen by the trainer are not the weights of the model");
    }
  }

  // consecutive changes of the weights and gradients of the same model, done by a trainer
  std::size_t trainWith(const json &ops, std::size_t from, std::size_t &k) {
    auto kind = [&](std::size_t i) { return i < ops.size() ? ops[i]["o"].get<std::string>() : std::string{}; };
    auto member = [&](std::size_t i) { return kind(i) == "setW" || kind(i) == "grad"; };
    if (!member(from)) {
      return 0;
    }
    std::size_t to = from;
    const json *first = nullptr;
    for (; member(to) && ops[to]["m"] == ops[from]["m"]; ++to) {
      if (kind(to) == "grad") {
        if (first && ((*first)["smp"] != ops[to]["smp"] || (*first)["pct"] != ops[to]["pct"] ||
                      (*first)["thr"] != ops[to]["thr"])) {
          break;
        }
        first = &ops[to];
      }
    }
    Model &m = w.ms.at(ops[from]["m"].get<int>());
    std::vector<std::vector<std::size_t>> combs = {std::vector<std::size_t>(m.state().getAllVariables().size(), 0)};
    EFG::train::TrainInfo info;
    if (first) {
      combs = combinations(m, (*first)["smp"]);
      info.threads = (*first)["thr"];
      info.stochastic_percentage = (*first)["pct"].get<int>() / 64.f;
    }
    EFG::train::TrainSet ts{combs};
    bool called = false;
    Session trainer;
    trainer.body = [&](::train::ParametersAware &model) {
      called = true;
      session = &model;
      checkParameters(m.tun()->getWeights());
      for (std::size_t i = from; i < to; ++i) {
        ++k;
        step(ops[i]);
      }
    };
    stats().add("trainings");
    try {
      EFG::train::train_model(*m.tun(), trainer, ts, info);
    } catch (...) {
      session = nullptr;
      throw;
    }
    session = nullptr;
    if (!called) {
      fail("train", "the trainer was not used");
    }
    return to - from;
  }
#else
  void *session = nullptr;
  void setThroughTrainer(const std::vector<float> &) {}
  std::size_t trainWith(const json &, std::size_t, std::size_t &) { return 0; }
#endif

  // the gradient given to the trainer: the opposite of that of the model
  bool gradThroughTrainer(Model &m, const json &op, std::size_t rows, std::vector<float> &g) {
#ifdef EFG_LEARNING_ENABLED
    if (!session) {
      return false;
    }
    auto weights = m.tun()->getWeights();
    auto v = session->getGradient();
    for (Eigen::Index k = 0; k < v.size(); ++k) {
      g.push_back(static_cast<float>(-v(k)));
    }
    checkParameters(weights);
    const int pct = op["pct"];
    if (g.size() != op["alpha"][0].size()) {
      fail("grad", cat_("gradient with ", g.size(), " components instead of ", op["alpha"][0].size()));
    }
    auto matches = [&](const std::vector<std::size_t> &visited) {
      for (std::size_t i = 0; i < g.size(); ++i) {
        if (!(std::abs(g[i] - expectedGrad(m, op, visited, i)) <= 5e-4 * RS)) {
          return false;
        }
      }
      return true;
    };
    stats().add("grad");
    std::vector<std::size_t> all(rows);
    std::iota(all.begin(), all.end(), 0);
    if (pct == 64) {
      if (!matches(all)) {
        fail("train", "the gradient seen by the trainer is not that of the model");
      }
      return true;
    }
    // samples are drawn: some choice of as many samples as requested has to explain the gradient
    const std::size_t number = static_cast<std::size_t>(rows * pct / 64);
    // what every different sample would give alone: the gradient is the mean over the chosen ones
    std::vector<std::vector<double>> alone;
    for (std::size_t r = 0; r < rows; ++r) {
      std::vector<double> one;
      for (std::size_t i = 0; i < g.size(); ++i) {
        one.push_back(expectedGrad(m, op, {r}, i));
      }
      if (std::find(alone.begin(), alone.end(), one) == alone.end()) {
        alone.push_back(std::move(one));
      }
    }
    std::vector<std::size_t> chosen(number, 0);
    for (std::size_t tries = 0; tries < 400000; ++tries) {
      bool ok = true;
      for (std::size_t i = 0; ok && i < g.size(); ++i) {
        double sum = 0;
        for (auto c : chosen) {
          sum += alone[c][i];
        }
        ok = std::abs(g[i] - sum / number) <= 5e-4 * RS;
      }
      if (ok) {
        stats().add("stochastic_grad");
        return true;
      }
      std::size_t p = number;
      while (p > 0 && chosen[p - 1] + 1 == alone.size()) {
        --p;
      }
      if (p == 0) {
        fail("train", cat_("no choice of ", number, " samples explains the gradient seen by the trainer"));
      }
      const auto next = chosen[p - 1] + 1;
      std::fill(chosen.begin() + (p - 1), chosen.end(), next);
    }
    stats().add("stochastic_grad_skipped");
    return true;
#else
    return false;
#endif
  }

  void doGrad(Model &m, const json &op) {
    const auto combs = combinations(m, op["smp"]);
    EFG::train::TrainSet ts{combs};
    std::vector<float> g;
    std::vector<std::size_t> visited; // samples of the iterator
    const bool trained = gradThroughTrainer(m, op, combs.size(), g);
    if (!trained) {
      // every iterator has the address of an earlier one, already gone
      thread_local std::optional<EFG::train::TrainSet::Iterator> slot;
      const int pct = judge("threads") ? 64 : op["pct"].get<int>(); // the twin must see the same samples
      slot.emplace(pct == 64 ? ts.makeIterator() : ts.makeSubSetIterator(pct / 64.f));
      slot->forEachSample([&](const std::vector<std::size_t> &c) {
        visited.push_back(std::find(combs.begin(), combs.end(), c) - combs.begin());
      });
      g = m.tun()->getWeightsGradient(*slot, op["thr"].get<std::size_t>());
      slot.reset();
    }
    record(m, true, op, g, "gradient");
    if (judge("grad") && !trained) {
      stats().add("grad");
      if (g.size() != op["alpha"][0].size()) {
        fail("grad", cat_("gradient with ", g.size(), " components instead of ", op["alpha"][0].size()));
      }
      for (std::size_t i = 0; i < g.size(); ++i) {
        const double e = expectedGrad(m, op, visited, i);
        if (!(std::abs(g[i] - e) <= 5e-4 * RS)) {
          fail("grad", cat_("gradient component ", i + 1, " is ", g[i], " instead of ", e));
        }
      }
    }
    if (m.rf) {
      m.rf->removeAllEvidences();
    } else {
      // evidences are left at the last sample
      std::vector<std::size_t> vals;
      for (auto &v : m.state().getObservedVariables()) {
        vals.push_back(op["smp"].back()[w.varId(v->name()) - 1].get<std::size_t>());
      }
      m.crf->setEvidences(vals);
    }
  }

  // variables, kind, weight and images of a factor
  using Content = std::tuple<std::vector<std::string>, bool, float, std::vector<float>>;

  static Content contentOf(const factor::Immutable &f) {
    Content c;
    for (auto &v : f.function().vars().getVariables()) {
      std::get<0>(c).push_back(v->name());
    }
    auto *e = dynamic_cast<const factor::FactorExponential *>(&f);
    std::get<1>(c) = e != nullptr;
    std::get<2>(c) = e ? e->getWeight() : 0;
    f.function().forEachCombination<false>([&](const auto &, float i) { std::get<3>(c).push_back(i); });
    return c;
  }

  template <typename M> static std::multiset<Content> content(M &x) {
    std::multiset<Content> res;
    for (auto &c : clusters(x)) {
      res.insert(c.begin(), c.end());
    }
    return res;
  }

  // factors grouped by the weight they share
  template <typename M> static std::multiset<std::multiset<Content>> clusters(M &x) {
    std::multiset<std::multiset<Content>> res;
    for (auto &f : x.getConstFactors()) {
      res.insert(std::multiset<Content>{contentOf(*f)});
    }
    if (auto *t = dynamic_cast<const EFG::train::FactorsTunableGetter *>(&x)) {
      for (auto &c : t->getTunableClusters()) {
        std::multiset<Content> cluster;
        if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&c)) {
          cluster.insert(contentOf(**one));
        } else {
          for (auto &f : std::get<EFG::train::TunableClusters>(c)) {
            cluster.insert(contentOf(*f));
          }
        }
        res.insert(cluster);
      }
    }
    return res;
  }

  template <typename M> static std::map<std::string, std::size_t> observations(M &x) {
    std::map<std::string, std::size_t> res;
    for (auto &[var, val] : x.getEvidences()) {
      res.emplace(var->name(), val);
    }
    return res;
  }

  template <typename M> static std::map<std::string, std::size_t> domains(M &x) {
    std::map<std::string, std::size_t> res;
    for (auto &var : x.getAllVariables()) {
      res.emplace(var->name(), var->size());
    }
    return res;
  }

  template <typename M> void doXml(Model &m, M &src, const json &op) {
#ifdef EFG_XML_IO
    Model n;
    n.ty = op["ty"];
    n.vt = std::make_shared<VarTable>();
    const std::string file = scratch + "/m.xml";
    if (op["file"].get<bool>()) {
      io::xml::Exporter::exportToFile(src, io::xml::ExportInfo{file, "Model"});
    } else {
      std::ofstream stream(file);
      stream << io::xml::Exporter::exportToString(src, "Model");
    }
    auto imp = [&](auto &dst) {
      io::xml::Importer::importFromFile(dst, file);
      stats().add("xml");
      if (domains(dst) != domains(src)) {
        fail("xml", "the variables after the import are not those exported");
      }
      if (content(dst) != content(src)) {
        fail("xml", "images or weights after the import are not exactly those exported");
      }
      if (n.rf && clusters(dst) != clusters(src)) {
        fail("xml", "the factors sharing their weight after the import are not those exported");
      }
      if (observations(dst) != observations(src)) {
        fail("xml", "the evidences after the import are not those exported");
      }
    };
    if (n.ty == "graph") {
      n.g = std::make_unique<model::Graph>();
      imp(*n.g);
    } else {
      n.rf = std::make_unique<model::RandomField>();
      imp(*n.rf);
    }
    std::filesystem::remove(file);
    (void)m;
#else
    (void)m;
    (void)src;
    (void)op;
#endif
  }

  void doJson(Model &m, const json &op) {
    Model n;
    n.ty = op["ty"];
    n.vt = std::make_shared<VarTable>();
    if (n.ty == "graph") {
      n.g = std::make_unique<model::Graph>();
    } else {
      n.rf = std::make_unique<model::RandomField>();
    }
    std::filesystem::path file = scratch + "/m.json";
    auto imp = [&](auto &dst, auto &src) {
      if (op["file"].get<bool>()) {
        io::json::Exporter::exportToFile(src, file);
        io::json::Importer::importFromFile(dst, file);
        std::filesystem::remove(file);
      } else {
        auto j = io::json::Exporter::exportToJson(src);
        io::json::Importer::importFromJson(dst, j);
      }
    };
    m.any([&](auto &src) {
      if (with_xml) {
        doXml(m, src, op);
      }
      if (n.g) {
        imp(*n.g, src);
      } else {
        imp(*n.rf, src);
      }
      if (judge("struct") && (n.g ? content(*n.g) : content(*n.rf)) != content(src)) {
        fail("json", "images or weights after the import are not exactly those exported");
      }
    });
    for (auto &v : n.state().getAllVariables()) {
      (*n.vt)[w.varId(v->name())] = v;
    }
    copyDefs(op, true, n.ty == "graph", m);
    w.ms.emplace(op["n"].get<int>(), std::move(n));
  }

  void doSample(Model &m, const json &op) {
    strct::GibbsSampler::SamplesGenerationContext c;
    const std::size_t n = op["n"];
    const int d = op["d"], b = op["b"];
    const std::size_t thr = op["thr"];
    c.samples_number = n;
    if (d >= 0) {
      c.delta_iterations = d;
    }
    if (b >= 0) {
      c.transient = b;
    }
    c.seed = op["seed"].get<std::size_t>();
    probe_overlaps = 0;
    probe_armed = probing;
    auto s = m.gibbs().makeSamples(c, thr);
    probe_armed = false;
    if (probing) {
      stats().add("probe_evaluations", probe_calls.exchange(0));
      if (probe_overlaps.load() > 0) {
        fail("adjacent", cat_("two connected variables were resampled at the same time (", probe_overlaps.load(),
                              " times) with ", thr, " threads"));
      }
    }
    if (!judge("sample")) {
      return;
    }
    stats().add("samples", static_cast<long>(s.size()));
    checkSamples(m, s, n, op["ev"], "sample");
    if (thr != 1) {
      return;
    }
    if (m.gibbs().makeSamples(c, 1) != s) {
      fail("sample", "same seed and one thread, but different samples");
    }
    // the same chain observed at every iteration
    const std::size_t delta =
        std::max<std::size_t>(1, d >= 0 ? d : static_cast<std::size_t>(std::ceil(n * 0.1)));
    const std::size_t burn = b >= 0 ? b : 10 * delta;
    auto c1 = c;
    c1.delta_iterations = 1;
    c1.transient = 0;
    c1.samples_number = n == 0 ? 0 : burn + (n - 1) * delta + 1;
    auto s1 = m.gibbs().makeSamples(c1, 1);
    stats().add("chains");
    for (std::size_t k = 0; k < n; ++k) {
      if (s[k] != s1[burn + k * delta]) {
        fail("sample", cat_("sample ", k, " with delta ", delta, " and transient ", burn,
                            " is not the state of the chain after ", burn + k * delta, " iterations"));
      }
    }
  }

  // frequencies of the samples against the exact distribution of each part
  void doFreq(Model &m, const json &op) {
    if (!judge("freq")) {
      return;
    }
    const auto all = m.state().getAllVariables();
    std::map<int, std::size_t> pos;
    for (std::size_t k = 0; k < all.size(); ++k) {
      pos[w.varId(all[k]->name())] = k;
    }
    const std::size_t thr = op["thr"];
    std::string problem;
    auto attempt = [&](std::size_t n, std::size_t delta, long seed, double slack) {
      strct::GibbsSampler::SamplesGenerationContext c;
      c.samples_number = n;
      c.delta_iterations = delta;
      c.transient = 60;
      if (seed >= 0) {
        c.seed = seed;
      }
      auto s = m.gibbs().makeSamples(c, thr);
      checkSamples(m, s, n, op["ev"], "sample");
      stats().add("samples", static_cast<long>(n));
      for (auto &part : op["tab"]) {
        const auto vs = part["vs"].get<std::vector<int>>();
        const auto t = part["t"].get<std::vector<double>>();
        double tot = 0;
        for (auto x : t) {
          tot += x;
        }
        std::vector<double> cnt(t.size(), 0);
        for (auto &x : s) {
          std::size_t i = 0;
          for (auto v : vs) {
            i = i * w.sz[v - 1] + x[pos.at(v)];
          }
          ++cnt[i];
        }
        for (std::size_t i = 0; i < t.size(); ++i) {
          const double p = t[i] / tot, f = cnt[i] / n;
          if (t[i] == 0 && cnt[i] > 0) {
            fail("freq0", cat_("combination ", i, " of variables ", show(vs), " was drawn ", cnt[i],
                               " times, but its probability is 0"));
          }
          if (op["pos"].get<bool>() && !(std::abs(f - p) <= slack + 6 * std::sqrt(p * (1 - p) / n))) {
            problem = cat_("combination ", i, " of variables ", show(vs), " has frequency ", f, " over ", n,
                           " samples, probability ", p, " (", thr, " threads)");
            return false;
          }
        }
      }
      if (!op["pos"].get<bool>()) {
        return true;
      }
      // pairs of variables: exact joint distribution in the same part, independent across parts
      std::map<int, std::size_t> part_of;
      std::map<std::pair<int, int>, std::vector<double>> exact; // of one variable (a, a) or of two in the same part
      for (std::size_t q = 0; q < op["tab"].size(); ++q) {
        const auto vs = op["tab"][q]["vs"].get<std::vector<int>>();
        const auto t = op["tab"][q]["t"].get<std::vector<double>>();
        double tot = 0;
        for (auto x : t) {
          tot += x;
        }
        std::vector<std::size_t> after(vs.size(), 1);
        for (std::size_t i = vs.size() - 1; i > 0; --i) {
          after[i - 1] = after[i] * w.sz[vs[i] - 1];
        }
        for (std::size_t i = 0; i < vs.size(); ++i) {
          part_of[vs[i]] = q;
          const std::size_t si = w.sz[vs[i] - 1];
          for (std::size_t k = i; k < vs.size(); ++k) {
            const std::size_t sk = k == i ? 1 : w.sz[vs[k] - 1];
            std::vector<double> d(si * sk, 0);
            for (std::size_t j = 0; j < t.size(); ++j) {
              d[((j / after[i]) % si) * sk + (k == i ? 0 : (j / after[k]) % sk)] += t[j] / tot;
            }
            exact[{vs[i], vs[k]}] = d;
          }
        }
      }
      for (auto &[a, qa] : part_of) {
        for (auto &[b, qb] : part_of) {
          if (a >= b) {
            continue;
          }
          const std::size_t sb = w.sz[b - 1];
          const auto &da = exact[{a, a}], &db = exact[{b, b}];
          std::vector<double> cnt(da.size() * sb, 0);
          for (auto &x : s) {
            ++cnt[x[pos.at(a)] * sb + x[pos.at(b)]];
          }
          stats().add(qa == qb ? "dependent_pairs" : "independent_pairs");
          for (std::size_t i = 0; i < cnt.size(); ++i) {
            const double p = qa == qb ? exact[{a, b}][i] : da[i / sb] * db[i % sb], f = cnt[i] / n;
            if (!(std::abs(f - p) <= slack + 6 * std::sqrt(p * (1 - p) / n))) {
              problem = cat_("values ", i / sb, ",", i % sb, " of variables ", a, ",", b, " have frequency ", f, " over ",
                             n, " samples, probability ", p, " (", thr, " threads)");
              return false;
            }
          }
        }
      }
      return true;
    };
    stats().add("freq");
    const long seed = op["seed"];
    if (attempt(1500, 3, seed, 0.03)) {
      return;
    }
    // slow mixing or bad luck? look much longer
    stats().add("freq_longer");
    if (attempt(20000, 10, seed, 0.015) || attempt(40000, 20, seed, 0.015)) {
      return;
    }
    fail("freq", problem);
  }

  void doMts(Model &m, const json &op) {
    strct::GibbsSampler::SamplesGenerationContext c;
    const std::size_t n = op["n"];
    c.samples_number = n;
    c.delta_iterations = 1;
    c.transient = 2;
    c.seed = op["seed"].get<std::size_t>();
    const int pct = op["pct"].get<int>();
    const float p = static_cast<float>(pct) / 100.f;
    std::map<std::string, std::size_t> before;
    std::vector<std::size_t> restore;
    auto restoreEv = [&] {
      std::vector<std::size_t> vals;
      for (auto &v : m.state().getObservedVariables()) {
        vals.push_back(op["ev"][w.varId(v->name()) - 1].get<std::size_t>());
      }
      m.crf->setEvidences(vals);
    };
    if (pct < 0 || pct > 100) {
      expectReject("training set with a range outside [0,1]",
                   [&] { m.crf->makeTrainSet(c, p, op["thr"].get<std::size_t>()); });
      restoreEv();
      return;
    }
    auto s = m.crf->makeTrainSet(c, p, op["thr"].get<std::size_t>());
    if (judge("mts")) {
      stats().add("trainsets");
      checkSamples(m, s, s.size(), json(), "mts");
      const auto &all = m.state().getAllVariables();
      std::vector<std::size_t> pos;
      std::size_t tot = 1;
      for (std::size_t k = 0; k < all.size(); ++k) {
        if (op["ev"][w.varId(all[k]->name()) - 1].get<int>() >= 0) {
          pos.push_back(k);
          tot *= all[k]->size();
        }
      }
      std::map<std::vector<std::size_t>, std::size_t> cnt;
      for (auto &x : s) {
        std::vector<std::size_t> e;
        for (auto k : pos) {
          e.push_back(x[k]);
        }
        ++cnt[e];
      }
      for (auto &[e, k] : cnt) {
        if (k != n) {
          fail("mts", cat_(k, " samples for the evidence values ", show(e), " instead of ", n));
        }
      }
      if (cnt.empty()) {
        fail("mts", "empty training set");
      }
      if (cnt.size() < static_cast<std::size_t>(std::max(0., std::floor(static_cast<double>(pct) * tot / 100. - 1e-3)))) {
        fail("mts", cat_(cnt.size(), " evidence combinations covered out of ", tot, ", less than ", pct, " percent"));
      }
      if (pct == 100 && cnt.size() != tot) {
        fail("mts", cat_(cnt.size(), " evidence combinations covered instead of ", tot));
      }
    }
    restoreEv();
  }

  void run(const json &b, std::size_t &k) {
    w.nv = b["nv"];
    w.sz = b["sz"].get<std::vector<std::size_t>>();
    k = 0;
    const auto &ops = b["ops"];
    for (std::size_t i = 0; i < ops.size();) {
      if (auto done = training ? trainWith(ops, i, k) : 0; done > 0) {
        i += done;
        continue;
      }
      ++k;
      step(ops[i]);
      ++i;
    }
    // destruction is part of the behaviour
    if (!keep) {
      w.ms.clear();
    }
  }

  bool keep = false; // the models are still needed after the run
  // all the marginals, after everything known by the model is computed again
  std::vector<std::vector<float>> requery(Model &m) {
    std::vector<std::vector<float>> res;
    const auto vars = m.state().getAllVariables();
    const auto evs = m.state().getEvidences();
    if (vars.empty()) {
      return res;
    }
    // an observed variable gets its value again, and a hidden one is observed for a while
    if (m.crf) {
      std::vector<std::size_t> values;
      for (const auto &v : m.state().getObservedVariables()) {
        values.push_back(evs.find(v)->second);
      }
      m.crf->setEvidences(values);
    } else if (!evs.empty()) {
      const auto v = evs.begin()->first;
      const auto x = evs.begin()->second;
      m.evs().setEvidence(v, x);
    } else {
      m.evs().setEvidence(vars.front(), 0);
      m.evr().removeEvidence(vars.front());
    }
    for (const auto &v : vars) {
      res.push_back(m.query().getMarginalDistribution(v, 1));
    }
    return res;
  }
  void queryTogether() {
    std::vector<Model *> all;
    for (auto &[id, m] : w.ms) {
      all.push_back(&m);
    }
    if (all.size() < 2) {
      return;
    }
    std::vector<std::vector<std::vector<float>>> alone, now(all.size());
    for (auto *m : all) {
      alone.push_back(requery(*m));
    }
    std::atomic<unsigned> ready{0};
    std::vector<std::string> errors(all.size());
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < all.size(); ++t) {
      threads.emplace_back([&, t] {
        ready.fetch_add(1);
        while (ready.load() < all.size()) {
          std::this_thread::yield();
        }
        try {
          now[t] = requery(*all[t]);
        } catch (const std::exception &e) {
          errors[t] = e.what();
        }
      });
    }
    for (auto &t : threads) {
      t.join();
    }
    for (std::size_t t = 0; t < all.size(); ++t) {
      if (!errors[t].empty()) {
        fail("together", "a query made while other models are queried too failed: " + errors[t]);
      }
      // on cycles the answers may depend on the order the messages are computed in
      for (std::size_t v = 0; judge("marg") && v < alone[t].size(); ++v) {
        for (std::size_t q = 0; q < alone[t][v].size(); ++q) {
          if (!(std::abs(alone[t][v][q] - now[t].at(v).at(q)) <= TOL)) {
            fail("together", cat_("a marginal is ", show(now[t][v]), " instead of ", show(alone[t][v]),
                                  " while other models are queried too"));
          }
        }
      }
    }
    stats().add("queried_together");
  }
};
// Several replays of the same history, each with its own models, variables and
// factors, in threads of their own: every one has to go as if it were alone.
void replayTogether(const json &b, std::size_t &k) {
  std::vector<std::thread> threads;
  std::vector<std::size_t> steps(together, 0);
  std::vector<std::optional<Mismatch>> bad(together);
  std::atomic<unsigned> ready{0};
  for (unsigned t = 0; t < together; ++t) {
    threads.emplace_back([&, t, base = scratch] {
      scratch = cat_(base, "/t", t);
      std::filesystem::create_directories(scratch);
      ready.fetch_add(1);
      while (ready.load() < together) {
        std::this_thread::yield();
      }
      try {
        Replayer r;
        r.run(b, steps[t]);
      } catch (const Mismatch &m) {
        bad[t] = m;
      } catch (const std::exception &e) {
        bad[t] = Mismatch{"exception", cat_("unexpected exception: ", e.what())};
      }
    });
  }
  for (auto &t : threads) {
    t.join();
  }
  for (unsigned t = 0; t < together; ++t) {
    if (bad[t]) {
      k = steps[t];
      fail("together", cat_("with ", together, " independent replays at the same time: ", bad[t]->msg));
    }
  }
  stats().add("together");
  // the models of one replay may share factors: they can be queried at the same time
  Replayer r;
  r.keep = true;
  r.run(b, k);
  r.queryTogether();
}
} // namespace

int main(int argc, char **argv) {
  std::string file;
  long only = -1;
  unsigned limit = 60;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    if (a.rfind("--judge=", 0) == 0) {
      std::stringstream ss(a.substr(8));
      std::string t;
      while (std::getline(ss, t, ',')) {
        judged.insert(t);
      }
    } else if (a == "--names=odd") {
      odd_names = true;
    } else if (a == "--probe") {
      probing = true;
    } else if (a == "--trainer") {
      training = true;
    } else if (a == "--xml") {
      with_xml = true;
    } else if (a == "--scale") {
      scaled = true;
    } else if (a.rfind("--rs=", 0) == 0) {
      unit_weights = a == "--rs=ln2";
      RS = unit_weights ? static_cast<float>(LN2) : std::stof(a.substr(5));
    } else if (a.rfind("--together=", 0) == 0) {
      together = std::stoul(a.substr(11));
    } else if (a.rfind("--only=", 0) == 0) {
      only = std::stol(a.substr(7));
    } else if (a.rfind("--limit=", 0) == 0) {
      limit = std::stoul(a.substr(8));
    } else if (a.rfind("--scratch=", 0) == 0) {
      scratch = a.substr(10);
    } else {
      file = a;
    }
  }
  return runBehaviours(file, only, limit, [](const json &b, std::size_t &k) {
    if (together > 1) {
      replayTogether(b, k);
      return;
    }
    Replayer r;
    r.run(b, k);
    if (judge("threads")) {
      json one = b;
      for (auto &op : one["ops"]) {
        if (op.contains("thr")) {
          op["thr"] = 1;
        }
      }
      Replayer s;
      s.run(one, k);
      if (r.given.size() != s.given.size()) {
        fail("threads", "a different number of answers with one thread");
      }
      for (std::size_t i = 0; i < r.given.size(); ++i) {
        const auto &x = r.given[i];
        const auto &y = s.given[i];
        const double tol = std::min(x.tol, y.tol);
        stats().add(tol < 0 ? "threads_skipped" : "threads");
        for (std::size_t q = 0; tol >= 0 && q < x.ans.size(); ++q) {
          if (!(std::abs(x.ans[q] - y.ans.at(q)) <= tol)) {
            fail("threads", cat_(x.what, " is ", show(x.ans), " but ", show(y.ans), " with one thread"));
          }
        }
      }
    }
  });
}
