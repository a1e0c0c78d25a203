// Explores core::Settings and Project on the real objects.
// usage: settings closure            every operation from every reachable state
//        settings sequences DEPTH    every sequence of the coupled operations, without merging states
//        settings projects DIR       project files on standard input ("P LEN\n" + text)
// Output: "BAD ..." lines for disagreements with the reference, "N name value" counts.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <limits>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include <boost/core/demangle.hpp>

#include "src/error.h"
#include "src/project.h"
#include "src/settings.h"

using scram::core::Algorithm;
using scram::core::Approximation;
using scram::core::Settings;

// The reference: plain fields and the documented rules, written apart from the code.
struct Ref {
  int alg = 0, app = 0;
  bool pi = false, prob = false, sil = false, imp = false, unc = false, ccf = false;
  int lim = 20, tri = 1000, qua = 20, bin = 20, seed = 0;
  double cut = 1e-8, mis = 8760, step = 0;

  auto tie() const {
    return std::tie(alg, app, pi, prob, sil, imp, unc, ccf, lim, tri, qua, bin, seed, cut, mis, step);
  }
  bool operator==(const Ref& o) const { return tie() == o.tie(); }
  std::string str() const {
    char b[400];
    std::snprintf(b, sizeof b,
                  "alg=%d app=%d pi=%d prob=%d sil=%d imp=%d unc=%d ccf=%d lim=%d tri=%d qua=%d "
                  "bin=%d seed=%d cut=%.17g mis=%.17g step=%.17g",
                  alg, app, pi, prob, sil, imp, unc, ccf, lim, tri, qua, bin, seed, cut, mis, step);
    return b;
  }
};

static Ref observe(const Settings& s) {
  Ref r;
  r.alg = static_cast<int>(s.algorithm());
  r.app = static_cast<int>(s.approximation());
  r.pi = s.prime_implicants();
  r.prob = s.probability_analysis();
  r.sil = s.safety_integrity_levels();
  r.imp = s.importance_analysis();
  r.unc = s.uncertainty_analysis();
  r.ccf = s.ccf_analysis();
  r.lim = s.limit_order();
  r.tri = s.num_trials();
  r.qua = s.num_quantiles();
  r.bin = s.num_bins();
  r.seed = s.seed();
  r.cut = s.cut_off();
  r.mis = s.mission_time();
  r.step = s.time_step();
  return r;
}

// The documented invariants, judged on the observed values alone.
static const char* broken(const Ref& r) {
  if (r.pi && (r.alg != 0 || r.app != 0)) return "prime implicants without exact BDD analysis";
  if ((r.sil || r.imp || r.unc) && !r.prob) return "an analysis without the probability analysis";
  if (r.sil && !(r.step > 0)) return "SIL without a time step";
  if (r.lim < 0 || r.tri < 1 || r.qua < 1 || r.bin < 1 || r.seed < 0) return "a count out of range";
  if (!(r.cut >= 0 && r.cut <= 1)) return "cut-off out of range";
  if (!(r.mis >= 0) || !(r.step >= 0)) return "time out of range";
  if (r.alg < 0 || r.alg > 2 || r.app < 0 || r.app > 2) return "unknown algorithm or approximation";
  return nullptr;
}

struct Op {
  std::string name;
  std::function<void(Settings&)> real;
  std::function<bool(Ref&)> ref;  // false: the change is rejected
  bool coupled;
};

static std::vector<Op> operations() {
  std::vector<Op> ops;
  static const char* algs[] = {"bdd", "zbdd", "mocus"};
  static const char* apps[] = {"none", "rare-event", "mcub"};
  for (int i = 0; i < 3; ++i) {
    auto ref = [i](Ref& r) {
      r.alg = i;
      if (i == 0) {
        r.app = 0;
      } else {
        r.pi = false;
        if (r.app == 0) r.app = 1;
      }
      return true;
    };
    ops.push_back({std::string("algorithm(k-") + algs[i] + ")",
                   [i](Settings& s) { s.algorithm(static_cast<Algorithm>(i)); }, ref, true});
    ops.push_back({std::string("algorithm(\"") + algs[i] + "\")",
                   [i](Settings& s) { s.algorithm(std::string_view(algs[i])); }, ref, false});
    auto ref2 = [i](Ref& r) {
      if (i && r.pi) return false;
      r.app = i;
      return true;
    };
    ops.push_back({std::string("approximation(k-") + apps[i] + ")",
                   [i](Settings& s) { s.approximation(static_cast<Approximation>(i)); }, ref2, true});
    ops.push_back({std::string("approximation(\"") + apps[i] + "\")",
                   [i](Settings& s) { s.approximation(std::string_view(apps[i])); }, ref2, false});
  }
  for (const char* bad : {"", "BDD", "bd", "bddx", "cnf"}) {
    std::string v = bad;
    ops.push_back({"algorithm(\"" + v + "\")", [v](Settings& s) { s.algorithm(std::string_view(v)); },
                   [](Ref&) { return false; }, false});
    ops.push_back({"approximation(\"" + v + "\")",
                   [v](Settings& s) { s.approximation(std::string_view(v)); },
                   [](Ref&) { return false; }, false});
  }
  for (bool f : {true, false}) {
    std::string v = f ? "(true)" : "(false)";
    ops.push_back({"prime_implicants" + v, [f](Settings& s) { s.prime_implicants(f); },
                   [f](Ref& r) {
                     if (f && r.alg) return false;
                     r.pi = f;
                     if (f) r.app = 0;
                     return true;
                   }, true});
    ops.push_back({"probability_analysis" + v, [f](Settings& s) { s.probability_analysis(f); },
                   [f](Ref& r) {
                     if (!r.imp && !r.unc && !r.sil) r.prob = f;
                     return true;
                   }, true});
    ops.push_back({"safety_integrity_levels" + v,
                   [f](Settings& s) { s.safety_integrity_levels(f); },
                   [f](Ref& r) {
                     if (f && r.step == 0) return false;
                     r.sil = f;
                     r.prob = r.prob || f;
                     return true;
                   }, true});
    ops.push_back({"importance_analysis" + v, [f](Settings& s) { s.importance_analysis(f); },
                   [f](Ref& r) {
                     r.imp = f;
                     r.prob = r.prob || f;
                     return true;
                   }, true});
    ops.push_back({"uncertainty_analysis" + v, [f](Settings& s) { s.uncertainty_analysis(f); },
                   [f](Ref& r) {
                     r.unc = f;
                     r.prob = r.prob || f;
                     return true;
                   }, true});
    ops.push_back({"ccf_analysis" + v, [f](Settings& s) { s.ccf_analysis(f); },
                   [f](Ref& r) {
                     r.ccf = f;
                     return true;
                   }, false});
  }
  auto ints = [&ops](const char* name, std::vector<int> vals, int low, Settings& (Settings::*set)(int),
                     int Ref::*field) {
    for (int v : vals)
      ops.push_back({std::string(name) + "(" + std::to_string(v) + ")",
                     [set, v](Settings& s) { (s.*set)(v); },
                     [v, low, field](Ref& r) {
                       if (v < low) return false;
                       r.*field = v;
                       return true;
                     }, false});
  };
  const int kMin = std::numeric_limits<int>::min(), kMax = std::numeric_limits<int>::max();
  ints("limit_order", {kMin, -1, 0, kMax}, 0, &Settings::limit_order, &Ref::lim);
  ints("num_trials", {kMin, -1, 0, 1}, 1, &Settings::num_trials, &Ref::tri);
  ints("num_quantiles", {-1, 0, 1}, 1, &Settings::num_quantiles, &Ref::qua);
  ints("num_bins", {kMin, -1, 0, 1}, 1, &Settings::num_bins, &Ref::bin);
  ints("seed", {kMin, -1, 0, kMax}, 0, &Settings::seed, &Ref::seed);
  const double nan = std::nan(""), inf = std::numeric_limits<double>::infinity(), tiny = 5e-324;
  for (double v : {-1.0, -tiny, -0.0, 0.0, 1.0, std::nextafter(1.0, 2.0), 2.0, nan, inf, -inf})
    ops.push_back({"cut_off(" + std::to_string(v) + ")", [v](Settings& s) { s.cut_off(v); },
                   [v](Ref& r) {
                     if (!(v >= 0 && v <= 1)) return false;
                     r.cut = v;
                     return true;
                   }, false});
  for (double v : {-1.0, -tiny, 0.0, 10.0, nan, -inf})
    ops.push_back({"mission_time(" + std::to_string(v) + ")", [v](Settings& s) { s.mission_time(v); },
                   [v](Ref& r) {
                     if (!(v >= 0)) return false;
                     r.mis = v;
                     return true;
                   }, false});
  for (double v : {-1.0, -tiny, -0.0, 0.0, tiny, 10.0, nan, -inf})
    ops.push_back({"time_step(" + std::to_string(v) + ")", [v](Settings& s) { s.time_step(v); },
                   [v](Ref& r) {
                     if (!(v >= 0) || (v == 0 && r.sil)) return false;
                     r.step = v;
                     return true;
                   }, v == 0 || v == 10});
  return ops;
}

static std::string g_now;
static long g_node = -1;  // the state under exploration, if any
static const std::string* g_op;
static std::string where() {
  return g_node < 0 ? g_now : "@" + std::to_string(g_node) + " " + *g_op;
}
static long g_bad = 0;

static void bad(const std::string& what) {
  if (++g_bad <= 50) std::printf("BAD %s: %s\n", where().c_str(), what.c_str());
}

// Applies one operation to both and compares; returns false if they disagree.
static bool step(const Op& op, Settings& s, Ref& r) {
  Ref before = r;
  bool want = op.ref(r);
  if (!want) r = before;
  bool got = true;
  try {
    op.real(s);
  } catch (const scram::SettingsError&) {
    got = false;
  } catch (const std::exception& e) {
    bad(std::string("throws ") + boost::core::demangle(typeid(e).name()));
    return false;
  }
  Ref now = observe(s);
  if (const char* why = broken(now)) {
    bad(std::string(why) + ": " + now.str());
    return false;
  }
  if (got != want) {
    bad(std::string(want ? "rejected" : "accepted") + " in the state " + before.str());
    return false;
  }
  if (!(now == r)) {
    bad("gives " + now.str() + " expected " + r.str() + (want ? "" : " (rejected)"));
    return false;
  }
  return true;
}

// groups: which groups of the independent numbers take part ("lim,cut" ...; empty: all)
static void closure(const std::string& groups) {
  std::vector<Op> ops;
  for (const Op& op : operations()) {
    std::string head = op.name.substr(0, op.name.find('('));
    bool number = head == "limit_order" || head.rfind("num_", 0) == 0 || head == "seed" ||
                  head == "cut_off" || head == "mission_time";
    if (groups.empty() || !number || groups.find(head) != std::string::npos) ops.push_back(op);
  }
  struct Node {
    Settings s;
    Ref r;
    long parent;
    int op;
  };
  std::vector<Node> nodes;
  std::unordered_map<std::string, long> seen;
  auto key = [](const Ref& r) {
    std::string k;
    std::apply([&k](const auto&... x) { (k.append(reinterpret_cast<const char*>(&x), sizeof x), ...); },
               r.tie());
    return k;
  };
  auto trace = [&nodes, &ops](long n) {
    std::string t;
    for (; n > 0; n = nodes[n].parent) t = ops[nodes[n].op].name + " " + t;
    return t;
  };
  nodes.push_back({Settings(), observe(Settings()), -1, -1});
  seen[key(nodes[0].r)] = 0;
  g_now = "defaults";
  if (!(nodes[0].r == Ref())) bad("default settings " + nodes[0].r.str());
  long transitions = 0, rejected = 0;
  for (long i = 0; i < static_cast<long>(nodes.size()); ++i) {
    for (int o = 0; o < static_cast<int>(ops.size()); ++o) {
      Settings s = nodes[i].s;
      Ref r = nodes[i].r;
      ++transitions;
      Ref before = r;
      g_node = i;
      g_op = &ops[o].name;
      long had = g_bad;
      if (!step(ops[o], s, r)) {
        if (g_bad <= 50) std::printf("BAD   after: %s\n", trace(i).c_str());
        if (g_bad > had && g_bad > 200) goto end;
        continue;
      }
      if (r == before) {
        ++rejected;
        continue;
      }
      auto [it, fresh] = seen.emplace(key(r), nodes.size());
      if (fresh) nodes.push_back({s, r, i, o});
    }
  }
end:
  std::printf("N states %zu\nN transitions %ld\nN unchanged %ld\n", nodes.size(), transitions, rejected);
}

static long g_sequences = 0;

static void extend(const std::vector<Op>& ops, const Settings& s, const Ref& r, int depth,
                   const std::string& path) {
  for (const Op& op : ops) {
    Settings t = s;
    Ref q = r;
    g_now = path + op.name;
    ++g_sequences;
    if (!step(op, t, q)) continue;
    if (depth > 1) extend(ops, t, q, depth - 1, path + op.name + " ");
  }
}

static void projects(const char* dir) {
  std::string file = std::string(dir) + "/project.xml";
  std::size_t len;
  while (std::scanf(" P %zu", &len) == 1) {
    std::getchar();
    std::string text(len, 0);
    if (std::fread(&text[0], 1, len, stdin) != len) std::exit(3);
    FILE* f = std::fopen(file.c_str(), "w");
    std::fwrite(text.data(), 1, len, f);
    std::fclose(f);
    try {
      scram::Project p(file);
      std::string files;
      for (const std::string& x : p.input_files()) files += " [" + x + "]";
      std::printf("OK %s%s\n", observe(p.settings()).str().c_str(), files.c_str());
    } catch (const std::exception& e) {
      std::printf("ERR %s\n", boost::core::demangle(typeid(e).name()).c_str());
    }
    std::fflush(stdout);
  }
}

int main(int argc, char** argv) {
  std::set_terminate([] {
    std::printf("BAD %s: ends the program\n", where().c_str());
    std::fflush(stdout);
    std::_Exit(4);
  });
  std::string mode = argv[1];
  if (mode == "closure") {
    closure(argc > 2 ? argv[2] : "");
  } else if (mode == "sequences") {
    std::vector<Op> ops;
    for (const Op& op : operations())
      if (op.coupled) ops.push_back(op);
    extend(ops, Settings(), observe(Settings()), std::atoi(argv[2]), "");
    std::printf("N sequences %ld\nN operations %zu\n", g_sequences, ops.size());
  } else {
    projects(argv[2]);
  }
  std::printf("N bad %ld\n", g_bad);
  return 0;
}
