// Replays the documents of spec/JsonFile.tla through the JSON importer.
#include "common.h"

#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>
#ifdef EFG_XML_IO
#include <EasyFactorGraph/io/xml/Exporter.h>
#include <EasyFactorGraph/io/xml/Importer.h>
#endif

using namespace EFG;

namespace {
std::string scratch = ".";
bool as_xml = false; // the documents are written as xml ones

std::string number(double x, const std::string &how) {
  std::ostringstream o;
  if (how == "int" && x == std::floor(x)) {
    o << static_cast<long>(x);
  } else if (how == "exp") {
    o << std::scientific << x;
  } else {
    o << std::fixed << x;
  }
  return o.str();
}

struct Doc {
  const json &b;
  std::string fault;
  std::size_t at, pick;
  json doc;

  explicit Doc(const json &b) : b(b), fault(b["fault"]), at(b["at"].get<int>()), pick(b["pick"].get<int>()) {}

  static std::string name(std::size_t v) { return cat_("v", v); }
  static json names(const json &sc) {
    json r = json::array();
    for (auto &v : sc) {
      r.push_back(name(v.get<std::size_t>()));
    }
    return r;
  }
  bool here(const char *f, std::size_t k) const { return fault == f && at == k; }

  json potential(const json &p, std::size_t k) {
    json r = json::object();
    r["Variables"] = names(p["sc"]);
    const std::string shape = p["shape"];
    if (shape == "rows") {
      json rows = json::array();
      for (auto &x : p["rows"]) {
        json v = json::array();
        for (auto &y : x["v"]) {
          v.push_back(std::to_string(y.get<int>()));
        }
        rows.push_back({{"v", v}, {"D", number(x["D"], p["num"])}});
      }
      r["Distr_val"] = rows;
    } else {
      r["Correlation"] = shape == "corr" ? "T" : "F";
    }
    if (p["w"] != 0) {
      r["weight"] = number(p["w"].get<double>() / 4, p["num"]);
    }
    if (p["tun"] != "-") {
      r["tunability"] = p["tun"];
    }
    if (!p["share"].empty()) {
      r["Share"] = names(p["share"]);
    }
    // faults
    if (here("unknown_var", k)) {
      auto &vs = r["Variables"];
      vs[pick % vs.size()] = "unheard of";
    } else if (here("three_vars", k)) {
      r["Variables"] = json::array({name(1), name(2), name(3)});
    } else if (here("no_vars", k)) {
      r["Variables"] = json::array();
    } else if (here("repeated_in_pot", k)) {
      r["Variables"] = json::array({r["Variables"][0], r["Variables"][0]});
    } else if (here("no_pot_Variables", k)) {
      r.erase("Variables");
    } else if (here("bad_corr", k)) {
      r.erase("Distr_val");
      r["Correlation"] = pick % 2 ? "maybe" : "";
    } else if (here("corr_sizes", k) || here("corr_unary", k)) {
      r.erase("Distr_val");
      r["Correlation"] = pick % 2 ? "T" : "F";
    } else if (here("no_Distr", k)) {
      r.erase("Distr_val");
    } else if (here("share_unknown", k)) {
      r["Share"] = json::array({name(b["own"].get<std::size_t>())});
    } else if (fault == "negative" || fault == "out_of_range" || fault == "comb_long" || fault == "comb_short" ||
               fault == "no_v" || fault == "no_D" || fault == "v_string") {
      if (at == k) {
        auto &row = r["Distr_val"][pick % r["Distr_val"].size()];
        if (fault == "negative") {
          row["D"] = pick % 3 ? "-1" : "-0.25";
        } else if (fault == "out_of_range") {
          auto i = pick % row["v"].size();
          row["v"][i] = std::to_string(b["doc"]["vars"][p["sc"][i].get<std::size_t>() - 1]["size"].get<int>() + pick % 3);
        } else if (fault == "comb_long") {
          row["v"].push_back("0");
        } else if (fault == "comb_short") {
          row["v"].erase(row["v"].size() - 1);
        } else if (fault == "no_v") {
          row.erase("v");
        } else if (fault == "no_D") {
          row.erase("D");
        } else {
          row["v"] = json::array({json::array()});
        }
      }
    }
    return r;
  }

  void build() {
    json vs = json::array(), ps = json::array();
    std::size_t k = 0;
    for (auto &v : b["doc"]["vars"]) {
      ++k;
      json r = {{"name", name(k)}, {"Size", std::to_string(v["size"].get<int>())}};
      if (v["ev"] != -1) {
        r["evidence"] = std::to_string(v["ev"].get<int>());
      }
      if (here("ev_range", k)) {
        r["evidence"] = std::to_string(v["size"].get<int>() + pick % 3);
      } else if (here("no_name", k)) {
        r.erase("name");
      } else if (here("no_Size", k)) {
        r.erase("Size");
      } else if (here("size0", k)) {
        r["Size"] = "0";
      } else if (here("empty_name", k)) {
        r["name"] = "";
      } else if (here("name_number", k)) {
        r["name"] = 12;
      }
      vs.push_back(r);
      if (here("repeated_var", k)) {
        vs.push_back(r);
      } else if (here("repeated_var_size", k)) {
        r["Size"] = std::to_string(v["size"].get<int>() + 1);
        vs.push_back(r);
      }
    }
    if (fault == "three_vars") {
      for (std::size_t j = vs.size(); j < 3; ++j) {
        vs.push_back({{"name", name(j + 1)}, {"Size", "2"}});
      }
    }
    k = 0;
    for (auto &p : b["doc"]["pots"]) {
      ++k;
      ps.push_back(potential(p, k));
      if (here("pair_twice", k) || here("pair_twice_flipped", k)) {
        auto again = ps.back();
        if (fault == "pair_twice_flipped") {
          std::swap(again["Variables"][0], again["Variables"][1]);
          for (auto &row : again["Distr_val"]) {
            std::swap(row["v"][0], row["v"][1]);
          }
          if (again["Distr_val"].empty()) {
            again.erase("Distr_val");
          }
          if (!again.contains("Correlation") && !again.contains("Distr_val")) {
            again["Distr_val"] = json::array();
          }
        }
        ps.insert(ps.begin() + pick % (ps.size() + 1), again);
      }
    }
    if (fault != "no_Variables") {
      doc["Variables"] = vs;
    }
    if (fault != "no_Potentials") {
      doc["Potentials"] = ps;
    }
  }

  // faults that have no meaning in a xml document
  bool notInXml() const {
    return fault == "no_Potentials" || fault == "no_Distr" || fault == "name_number" || fault == "v_string";
  }

  std::string xml() {
    std::ostringstream o;
    const std::string nl = pick % 3 ? "\n" : " ";
    o << "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>" << nl << "<Model>" << nl;
    auto attr = [&](const json &x, const char *key) {
      if (x.contains(key)) {
        o << ' ' << key << "=\"" << x[key].get<std::string>() << '"';
      }
    };
    auto vars = [&](const json &names) {
      for (auto &v : names) {
        o << " var=\"" << v.get<std::string>() << '"';
      }
    };
    auto variables = [&] {
      for (auto &v : doc.value("Variables", json::array())) {
        o << "<Variable";
        attr(v, "evidence");
        attr(v, "name");
        attr(v, "Size");
        o << (pick % 2 ? "/>" : "></Variable>") << nl;
      }
    };
    if (pick % 4) {
      variables();
    }
    std::size_t k = 0;
    for (auto &p : doc["Potentials"]) {
      ++k;
      o << "<Potential";
      attr(p, "weight");
      vars(p.value("Variables", json::array()));
      attr(p, "Correlation");
      attr(p, "tunability");
      const auto rows = p.value("Distr_val", json::array());
      bool plain = true; // rows that a text file can hold
      for (auto &r : rows) {
        plain = plain && r.contains("v") && r.contains("D");
      }
      const bool source = plain && !p.contains("Correlation") && (pick + k) % 3 == 0;
      if (source) {
        const auto file = cat_("rows", k, ".txt");
        o << " Source=\"" << file << '"';
        std::ofstream f(scratch + "/" + file);
        for (std::size_t i = 0; i < rows.size(); ++i) {
          for (auto &v : rows[i]["v"]) {
            f << v.get<std::string>() << ' ';
          }
          f << rows[i]["D"].get<std::string>();
          if (i + 1 < rows.size() || pick % 2) {
            f << '\n';
          }
        }
      }
      o << ">" << nl;
      for (std::size_t i = 0; !source && i < rows.size(); ++i) {
        // the order of the tags is not meaningful
        bool later = false;
        for (std::size_t j = i + 1; j < rows.size(); ++j) {
          later = later || rows[j].value("v", json{}) == rows[i].value("v", json{});
        }
        if (later && fault == "none") {
          continue;
        }
        o << "<Distr_val";
        attr(rows[i], "D");
        for (auto &v : rows[i].value("v", json::array())) {
          o << " v=\"" << v.get<std::string>() << '"';
        }
        o << "/>" << nl;
      }
      if (p.contains("Share")) {
        o << "<Share";
        vars(p["Share"]);
        o << "/>" << nl;
      }
      o << "</Potential>" << nl;
    }
    if (pick % 4 == 0) {
      variables();
    }
    o << "</Model>";
    return o.str();
  }

  template <typename M> void importXml(M &m) {
#ifdef EFG_XML_IO
    const auto path = scratch + "/doc.xml";
    std::remove(path.c_str());
    if (fault != "no_file") {
      auto txt = xml();
      if (fault == "truncated") {
        txt.resize(1 + pick % (txt.size() - 1));
      } else if (fault == "garbage") {
        txt = pick % 2 ? "" : "{\"Variables\": []}";
      }
      std::ofstream(path) << txt;
    }
    io::xml::Importer::importFromFile(m, path);
#else
    (void)m;
#endif
  }

  template <typename M> void import(M &m) {
    if (as_xml) {
      importXml(m);
      return;
    }
    if (b["via"] == "mem") {
      io::json::Importer::importFromJson(m, doc);
      return;
    }
    const auto path = scratch + "/doc.json";
    std::remove(path.c_str());
    if (fault != "no_file") {
      auto txt = doc.dump(pick % 2 ? 2 : -1);
      if (fault == "truncated") {
        txt.resize(1 + pick % (txt.size() - 1));
      } else if (fault == "garbage") {
        txt = pick % 2 ? "" : "<?xml version=\"1.0\"?><a/>";
      }
      std::ofstream(path) << txt;
    }
    io::json::Importer::importFromFile(m, path);
  }

  // scope names in order, images
  using Img = std::pair<std::vector<std::string>, std::vector<float>>;
  static Img img(const fac::Immutable &f) {
    Img r;
    for (auto &v : f.function().vars().getVariables()) {
      r.first.push_back(v->name());
    }
    f.function().forEachCombination<true>([&](const auto &, float x) { r.second.push_back(x); });
    return r;
  }
  static Img expected(const json &f) {
    Img r;
    for (auto &v : f["sc"]) {
      r.first.push_back(name(v));
    }
    const double w = f["w"].get<double>() / 4;
    for (auto &x : f["raw"]) {
      r.second.push_back(w == 0 ? x.get<float>() : std::exp(static_cast<float>(w) * x.get<float>()));
    }
    return r;
  }
  static std::string text(const Img &i) {
    std::string s;
    for (auto &n : i.first) {
      s += n + " ";
    }
    return s + show(i.second);
  }
  static bool same(const Img &a, const Img &b) {
    if (a.first != b.first || a.second.size() != b.second.size()) {
      return false;
    }
    for (std::size_t k = 0; k < a.second.size(); ++k) {
      const double x = a.second[k], y = b.second[k];
      if (!(x == y || std::abs(x - y) <= 1e-4 * std::abs(y))) {
        return false;
      }
    }
    return true;
  }
  static bool equalSets(const std::vector<Img> &exp, std::vector<Img> got) {
    for (auto &e : exp) {
      auto it = std::find_if(got.begin(), got.end(), [&](const Img &g) { return same(g, e); });
      if (it == got.end()) {
        return false;
      }
      got.erase(it);
    }
    return got.empty();
  }
  static void sameSet(const char *what, const std::vector<Img> &exp, std::vector<Img> got) {
    for (auto &e : exp) {
      stats().add("factors");
      auto it = std::find_if(got.begin(), got.end(), [&](const Img &g) { return same(g, e); });
      if (it == got.end()) {
        std::string all;
        for (auto &g : got) {
          all += " | " + text(g);
        }
        fail("json", cat_(what, ": no factor ", text(e), " among", all));
      }
      got.erase(it);
    }
    if (!got.empty()) {
      fail("json", cat_(what, ": unexpected factor ", text(got.front())));
    }
  }

  template <typename M> void check(const M &m) {
    const auto &e = b["model"];
    std::map<std::string, std::size_t> sizes, ev;
    std::size_t k = 0;
    for (auto &v : b["doc"]["vars"]) {
      if (e["used"][k].get<bool>()) {
        sizes[name(k + 1)] = v["size"];
        if (e["ev"][k] != -1) {
          ev[name(k + 1)] = e["ev"][k];
        }
      }
      ++k;
    }
    std::map<std::string, std::size_t> gs, ge;
    for (auto &v : m.getAllVariables()) {
      gs[v->name()] = v->size();
    }
    for (auto &[v, x] : m.getEvidences()) {
      ge[v->name()] = x;
    }
    if (gs != sizes) {
      fail("json", cat_("the imported model has other variables (", gs.size(), " instead of ", sizes.size(), ")"));
    }
    if (ge != ev) {
      fail("json", "the imported model has other evidences");
    }
    std::vector<Img> cn, gc;
    for (auto &f : e["const"]) {
      cn.push_back(expected(f));
    }
    for (auto &f : m.getConstFactors()) {
      gc.push_back(img(*f));
    }
    if constexpr (std::is_same_v<M, model::RandomField>) {
      sameSet("constant factors", cn, gc);
      auto w = m.getWeights();
      auto cls = m.getTunableClusters();
      if (cls.size() != e["clusters"].size() || w.size() != cls.size()) {
        fail("json", cat_(cls.size(), " clusters and ", w.size(), " weights instead of ", e["clusters"].size()));
      }
      std::vector<std::vector<Img>> exps, gots;
      for (std::size_t i = 0; i < cls.size(); ++i) {
        auto &exp = exps.emplace_back();
        auto &got = gots.emplace_back();
        for (auto &f : e["clusters"][i]) {
          exp.push_back(expected(f));
        }
        if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&cls[i])) {
          got.push_back(img(**one));
        } else {
          for (auto &f : std::get<EFG::train::TunableClusters>(cls[i])) {
            got.push_back(img(*f));
          }
        }
      }
      std::vector<bool> taken(cls.size(), false);
      for (std::size_t i = 0; i < cls.size(); ++i) {
        std::size_t k = i;
        // the order of the tags is not meaningful in a xml document
        for (std::size_t j = 0; as_xml && j < cls.size(); ++j) {
          if (!taken[j] && equalSets(exps[i], gots[j]) &&
              std::abs(w[j] - e["clusters"][i][0]["w"].get<double>() / 4) <= 1e-5) {
            k = j;
            break;
          }
        }
        taken[k] = true;
        sameSet("cluster", exps[i], gots[k]);
        if (std::abs(w[k] - e["clusters"][i][0]["w"].get<double>() / 4) > 1e-5) {
          fail("json", cat_("weight ", w[k], " of cluster ", i));
        }
      }
    } else {
      for (auto &c : e["clusters"]) {
        for (auto &f : c) {
          cn.push_back(expected(f));
        }
      }
      sameSet("factors", cn, gc);
    }
  }
  template <typename M> void go() {
    M m;
    if (b["ok"].get<bool>()) {
      stats().add("accepted");
      import(m);
      check(m);
      // and it survives another export and import
      M again;
#ifdef EFG_XML_IO
      if (as_xml) {
        const auto path = scratch + "/again.xml";
        io::xml::Exporter::exportToFile(m, io::xml::ExportInfo{path, "again"});
        check(m);
        io::xml::Importer::importFromFile(again, path);
        check(again);
        return;
      }
#endif
      auto j = io::json::Exporter::exportToJson(m);
      check(m);
      io::json::Importer::importFromJson(again, j);
      check(again);
    } else {
      stats().add("fault_" + fault);
      mustThrow("a document with fault " + fault + ": " + (as_xml ? xml() : doc.dump()), [&] { import(m); });
    }
  }
  void run() {
    build();
    if (as_xml && notInXml()) {
      return;
    }
    if (b["into"] == "rf") {
      go<model::RandomField>();
    } else {
      // a model without tunable factors ignores the sharing groups
      if (fault == "share_unknown") {
        return;
      }
      go<model::Graph>();
    }
  }
};
// the recorded finding (known_findings.jsonl): a cluster whose leading group is
// also the one of an earlier cluster, which is possible after absorbing a model
int ambiguousShare() {
  auto u = cat::make_variable(2, "u"), v = cat::make_variable(2, "v");
  auto make = [](const cat::VariablePtr &x, float w) {
    fac::Factor f{cat::Group{x}};
    f.set(std::vector<std::size_t>{1}, 1.f);
    return std::make_shared<fac::FactorExponential>(f, w);
  };
  model::RandomField source, m;
  source.addTunableFactor(make(u, 2.f));
  source.addTunableFactor(make(v, 2.f), cat::VariablesSet{u});
  m.addTunableFactor(make(u, 1.f));
  m.absorb(source, true);
  model::RandomField again;
#ifdef EFG_XML_IO
  if (as_xml) {
    const std::string file = scratch + "/share.xml";
    io::xml::Exporter::exportToFile(m, io::xml::ExportInfo{file, "m"});
    io::xml::Importer::importFromFile(again, file);
  } else
#endif
  io::json::Importer::importFromJson(again, io::json::Exporter::exportToJson(m));
  auto p = m.getMarginalDistribution(v);
  const auto vars = again.getAllVariables();
  auto q = again.getMarginalDistribution(
      *std::find_if(vars.begin(), vars.end(), [](auto &x) { return x->name() == "v"; }));
  if (m.getWeights() != again.getWeights() || std::abs(p[0] - q[0]) > 1e-4) {
    json rec = {{"beh", 0}, {"step", 0}, {"kind", "json"}, {"msg", cat_("marginal ", show(p), " became ", show(q))}};
    std::printf("@MISMATCH %s\n", rec.dump().c_str());
    return 1;
  }
  return 0;
}
} // namespace

int main(int argc, char **argv) {
  std::string file;
  long only = -1;
  unsigned limit = 60;
  bool share = false;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    if (a == "--finding=share") {
      share = true;
    } else if (a.rfind("--only=", 0) == 0) {
      only = std::stol(a.substr(7));
    } else if (a.rfind("--limit=", 0) == 0) {
      limit = std::stoul(a.substr(8));
    } else if (a == "--xml") {
      as_xml = true;
    } else if (a.rfind("--scratch=", 0) == 0) {
      scratch = a.substr(10);
    } else if (a.rfind("--", 0) != 0) {
      file = a;
    }
  }
  if (share) {
    return ambiguousShare();
  }
  return runBehaviours(file, only, limit, [](const json &b, std::size_t &) { Doc{b}.run(); });
}
