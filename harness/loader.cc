// Loads models given on standard input and prints the verdict, the structure or both.
// usage: loader SCRATCH-DIR [prob] [approx] [dump] [analyse] [extern] [leaks]
// input per model: "M N LEN1 .. LENN\n" followed by the N file texts; output per model: lines
// describing the model (with dump); with analyse, accepted models are also analysed in several ways
// and the reports discarded; then "OK" or "ERR type|cycle|message".
#include <unistd.h>

#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <set>
#include <string>
#include <variant>
#include <vector>

#include <boost/core/typeinfo.hpp>
#include <boost/core/demangle.hpp>
#include <boost/exception/all.hpp>

#include "src/ccf_group.h"
#include "src/error.h"
#include "src/event.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/parameter.h"
#include "src/reporter.h"
#include "src/risk_analysis.h"
#include "src/settings.h"

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/lsan_interface.h>
#endif

using namespace scram;

static std::string path(const mef::Id& e) {
  return std::string(e.full_path());
}

static void dump(mef::Model& model) {
  std::set<std::string> out;
  for (mef::Gate& g : model.table<mef::Gate>()) {
    std::string s = "G " + path(g) + " " + g.id();
    const mef::Formula& f = g.formula();
    s += " ";
    s += mef::kConnectiveToString[f.connective()];
    if (f.min_number()) s += ":" + std::to_string(*f.min_number());
    if (f.max_number()) s += ":" + std::to_string(*f.max_number());
    std::multiset<std::string> args;
    for (const mef::Formula::Arg& a : f.args()) {
      std::string t = a.complement ? "-" : "+";
      if (auto* x = std::get_if<mef::Gate*>(&a.event)) {
        t += "G" + path(**x);
      } else if (auto* x = std::get_if<mef::BasicEvent*>(&a.event)) {
        t += "B" + path(**x);
      } else if (auto* x = std::get_if<mef::HouseEvent*>(&a.event)) {
        t += "H" + path(**x) + ((*x)->state() ? "=1" : "=0");
      } else {
        t += "?";
      }
      args.insert(t);
    }
    for (const std::string& t : args) s += " " + t;
    out.insert(s);
  }
  for (mef::BasicEvent& b : model.table<mef::BasicEvent>()) {
    char buf[64] = "-";
    if (b.HasExpression()) std::snprintf(buf, sizeof buf, "%.17g", b.p());
    out.insert("B " + path(b) + " " + b.id() + " " + buf + (b.HasCcf() ? " ccf" : ""));
  }
  for (mef::HouseEvent& h : model.table<mef::HouseEvent>())
    out.insert("H " + path(h) + " " + h.id() + (h.state() ? " 1" : " 0"));
  for (mef::Parameter& p : model.table<mef::Parameter>()) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.17g", p.value());
    out.insert("P " + path(p) + " " + p.id() + " " + buf);
  }
  for (mef::CcfGroup& c : model.table<mef::CcfGroup>()) {
    std::multiset<std::string> m;
    for (const mef::BasicEvent* b : c.members()) m.insert(path(*b));
    std::string s = "C " + path(c) + " " + c.id();
    for (const std::string& t : m) s += " " + t;
    out.insert(s);
  }
  for (const std::string& s : out) std::printf("%s\n", s.c_str());
}

static std::string flat(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '|')
      c = ' ';
  return s;
}

// Runs analyses with different algorithms and throws the reports away.
static void analyse(mef::Model* model, bool prob) {
  bool approximate = false;
  for (const mef::Substitution& s : model->substitutions()) approximate |= !s.declarative();
  const char* algorithms[] = {"bdd", "zbdd", "mocus"};
  for (int i = 0; i < 3; ++i) {
    core::Settings s;
    s.algorithm(algorithms[i]);
    if (approximate || i) s.approximation(i == 1 ? "rare-event" : "mcub");
    s.limit_order(i == 2 ? 3 : 20).probability_analysis(prob).importance_analysis(prob);
    s.uncertainty_analysis(prob).num_trials(3).num_bins(2).num_quantiles(2).seed(1);
    s.ccf_analysis(i != 1).time_step(i == 0 ? 3000 : 0);
    if (prob && i == 0) s.safety_integrity_levels(true);
    core::RiskAnalysis analysis(model, s);
    analysis.Analyze();
    char* buf = nullptr;
    std::size_t n = 0;
    FILE* out = open_memstream(&buf, &n);
    Reporter().Report(analysis, out, false);
    std::fclose(out);
    std::free(buf);
  }
}

int main(int argc, char** argv) {
  std::string dir = argv[1];
  bool prob = false, dumps = false, analyses = false, approx = false, ext = false, leaks = false;
  for (int i = 2; i < argc; ++i) {
    prob |= !std::strcmp(argv[i], "prob");
    dumps |= !std::strcmp(argv[i], "dump");
    leaks |= !std::strcmp(argv[i], "leaks");
    ext |= !std::strcmp(argv[i], "extern");
    approx |= !std::strcmp(argv[i], "approx");
    analyses |= !std::strcmp(argv[i], "analyse");
  }
  core::Settings settings;
  settings.probability_analysis(prob);
  if (approx) settings.approximation("rare-event");
  int n;
  while (std::scanf(" M %d", &n) == 1) {
    std::vector<std::size_t> len(n);
    for (auto& x : len)
      if (std::scanf("%zu", &x) != 1) return 3;
    if (std::getchar() != '\n') return 3;
    std::vector<std::string> files;
    for (int i = 0; i < n; ++i) {
      std::string text(len[i], 0);
      if (std::fread(&text[0], 1, len[i], stdin) != len[i]) return 3;
      files.push_back(dir + "/f" + std::to_string(i) + ".xml");
      FILE* f = std::fopen(files.back().c_str(), "w");
      std::fwrite(text.data(), 1, len[i], f);
      std::fclose(f);
    }
    try {
      std::unique_ptr<mef::Model> model = mef::Initializer(files, settings, ext).model();
      if (dumps) dump(*model);
      if (analyses) analyse(model.get(), prob);
      std::printf("OK\n");
    } catch (const Error& err) {
      const std::string* cycle = boost::get_error_info<mef::errinfo_cycle>(err);
      std::printf("ERR %s|%s|%s\n",
                  flat(boost::core::demangle(typeid(err).name())).c_str(),
                  cycle ? flat(*cycle).c_str() : "", flat(err.what()).c_str());
    } catch (const std::exception& err) {
      std::printf("ERR std::exception||%s\n", flat(err.what()).c_str());
    }
    std::fflush(stdout);
#ifdef __SANITIZE_ADDRESS__
    if (leaks && __lsan_do_recoverable_leak_check()) {
      std::printf("LEAK\n");
      std::fflush(stdout);
      _exit(23);
    }
#endif
  }
  return 0;
}
