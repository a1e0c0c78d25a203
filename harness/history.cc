// Explores histories of analyses on one loaded model in one process.
// usage: history DIR WORDS-FILE [show] FILE...      (FILE...: the model)
// DIR/letters holds one letter per line: "k=v k=v ..."; each line of WORDS-FILE is a word, the
// indices of its letters.  For every word the model is loaded anew and the letters are carried out
// in order on it; the analyses stay alive until the end of the word, when the first one is reported
// once more.  Output per word: "W i j k : digest digest digest again"; with "show" also the texts.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "src/error.h"
#include "src/event.h"
#include "src/expression.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/parameter.h"
#include "src/reporter.h"
#include "src/risk_analysis.h"
#include "src/serialization.h"
#include "src/settings.h"

using namespace scram;

struct Letter {
  std::map<std::string, std::string> opt;
  core::Settings settings;
  std::string kind;  // analyse, serialize, load
};

static void cut(std::string* s, const std::string& from, const std::string& to) {
  std::size_t i;
  while ((i = s->find(from)) != std::string::npos) {
    std::size_t j = s->find(to, i);
    s->erase(i, j == std::string::npos ? j : j + to.size() - i);
  }
}

template <class F>
static std::string capture(F&& f) {
  char* buf = nullptr;
  std::size_t n = 0;
  FILE* out = open_memstream(&buf, &n);
  f(out);
  std::fclose(out);
  std::string res(buf, n);
  std::free(buf);
  cut(&res, "<time>", "</time>");
  cut(&res, "<performance>", "</performance>");
  return res;
}

static std::string report(const core::RiskAnalysis& an) {
  return capture([&](FILE* out) { Reporter().Report(an, out, true); });
}

static std::string fingerprint(mef::Model& m) {
  std::ostringstream os;
  os.precision(17);
  os << m.mission_time().value() << '|' << m.context()->initiating_event << '|'
     << m.context()->functional_events.size();
  for (mef::Gate& g : m.table<mef::Gate>()) os << 'g' << static_cast<int>(g.mark());
  for (mef::Parameter& p : m.table<mef::Parameter>())
    os << 'p' << static_cast<int>(p.mark()) << p.value();
  for (mef::HouseEvent& h : m.table<mef::HouseEvent>()) os << 'h' << h.state();
  for (mef::BasicEvent& b : m.table<mef::BasicEvent>())
    if (b.HasExpression()) os << 'b' << b.p();
  return os.str();
}

int main(int argc, char** argv) {
  std::string dir = argv[1];
  int a = 3;
  bool show = argc > 3 && !std::strcmp(argv[3], "show");
  if (show) ++a;
  std::vector<std::string> files(argv + a, argv + argc);

  std::vector<Letter> letters;
  {
    std::ifstream in(dir + "/letters");
    std::string line;
    while (std::getline(in, line)) {
      Letter l;
      l.kind = "analyse";
      std::istringstream is(line);
      std::string kv;
      core::Settings& s = l.settings;
      while (is >> kv) {
        auto eq = kv.find('=');
        std::string k = kv.substr(0, eq), v = eq == kv.npos ? "" : kv.substr(eq + 1);
        if (k == "kind") l.kind = v;
        else if (k == "alg") s.algorithm(v);
        else if (k == "pi") s.prime_implicants(true);
        else if (k == "prob") s.probability_analysis(true);
        else if (k == "imp") s.importance_analysis(true);
        else if (k == "unc") s.uncertainty_analysis(true);
        else if (k == "ccf") s.ccf_analysis(true);
        else if (k == "approx") s.approximation(v);
        else if (k == "limit") s.limit_order(std::stoi(v));
        else if (k == "T") s.mission_time(std::stod(v));
        else if (k == "step") s.time_step(std::stod(v));
        else if (k == "sil") s.safety_integrity_levels(true);
        else if (k == "seed") s.seed(std::stoi(v));
        else if (k == "trials") s.num_trials(std::stoi(v));
        else if (k == "bins") s.num_bins(std::stoi(v));
        else if (k == "quantiles") s.num_quantiles(std::stoi(v));
        else { std::cerr << "letter " << kv << "\n"; return 3; }
      }
      letters.push_back(std::move(l));
    }
  }

  std::map<std::string, int> states;
  long transitions = 0, same = 0;
  std::ifstream in(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::vector<int> word;
    for (int x; is >> x;) word.push_back(x);
    core::Settings base;
    base.probability_analysis(true);
    if (std::getenv("HISTORY_APPROX")) base.approximation("rare-event");
    std::unique_ptr<mef::Model> model = mef::Initializer(files, base).model();
    const double time0 = model->mission_time().value();
    std::vector<std::unique_ptr<core::RiskAnalysis>> alive;
    std::vector<std::string> texts;
    std::string start = fingerprint(*model);
    states.emplace(start, states.size());
    for (int x : word) {
      const Letter& l = letters[x];
      if (l.kind == "serialize") {
        texts.push_back(capture([&](FILE* out) { mef::Serialize(*model, out); }));
        alive.push_back(nullptr);
      } else if (l.kind == "load") {
        std::unique_ptr<mef::Model> other = mef::Initializer(files, base).model();
        core::RiskAnalysis an(other.get(), l.settings);
        an.Analyze();
        texts.push_back(report(an));
        alive.push_back(nullptr);
      } else {
        model->mission_time().value(l.settings.mission_time());
        alive.push_back(std::make_unique<core::RiskAnalysis>(model.get(), l.settings));
        alive.back()->Analyze();
        texts.push_back(report(*alive.back()));
        // The caller set the mission time; whatever else has changed is the work of the analysis.
        if (model->mission_time().value() != l.settings.mission_time())
          std::printf("BAD mission time %g after the analysis, %g before\n",
                      model->mission_time().value(), l.settings.mission_time());
        model->mission_time().value(time0);
      }
      ++transitions;
      std::string f = fingerprint(*model);
      same += f == start;
      states.emplace(f, states.size());
    }
    if (alive.front()) {
      model->mission_time().value(letters[word.front()].settings.mission_time());
      texts.push_back(report(*alive.front()));
    } else {
      texts.push_back(texts.front());
    }
    std::printf("W %s:", line.c_str());
    for (const std::string& t : texts) std::printf(" %016zx", std::hash<std::string>()(t));
    std::printf("\n");
    if (show)
      for (const std::string& t : texts) std::printf("T %zu\n%s", t.size(), t.c_str());
    std::fflush(stdout);
  }
  std::printf("N states %zu\nN transitions %ld\nN unchanged %ld\n", states.size(), transitions, same);
  return 0;
}
