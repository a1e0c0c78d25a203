// Explores the random choices of expressions: every tuple over an alphabet of generator outputs is
// forced on the random number generator before the expressions are sampled.
//
// usage: deviates LIST
// LIST has one job per line, tab-separated:
//   E file points names...      sample the named parameters of the file for every assignment of
//                               the points to the parameters u0, u1, ... (uniform deviates)
//   D file kind a b c           compare samples of parameter "p" with the reference distribution
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include <boost/random/beta_distribution.hpp>

#include "src/error.h"
#include "src/expression/random_deviate.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/parameter.h"
#include "src/settings.h"

using namespace scram;

struct Access : public mef::RandomDeviate {
  Access() : RandomDeviate({}) {}
  double value() noexcept override { return 0; }
  void Validate() const override {}
  std::mt19937& get() { return rng(); }

 private:
  double DoSample() noexcept override { return 0; }
};

static uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t t = y;
  for (int i = 0; i < 5; ++i)
    t = y ^ ((t << 7) & 0x9d2c5680u);
  y = t;
  t = y;
  for (int i = 0; i < 3; ++i)
    t = y ^ (t >> 11);
  return t;
}

/// Sets the generator so that it yields the words and then a fixed sequence.
static void force(std::mt19937* rng, const std::vector<uint32_t>& words) {
  std::stringstream ss;
  uint32_t x = 2463534242u;
  for (unsigned i = 0; i < 624; ++i) {
    uint32_t w;
    if (i < words.size()) {
      w = words[i];
    } else {
      x ^= x << 13;
      x ^= x >> 17;
      x ^= x << 5;
      w = x;
    }
    ss << untemper(w) << ' ';
  }
  ss << 0;  // The position.
  ss >> *rng;
}

static std::unique_ptr<mef::Model> load(const std::string& path, bool* ok) {
  core::Settings settings;
  settings.probability_analysis(true);
  *ok = true;
  try {
    return mef::Initializer({path}, settings).model();
  } catch (const scram::Error& err) {
    std::string what = err.what();
    for (char& c : what)
      if (c == '\n')
        c = ' ';
    std::printf("ERR %s\n", what.c_str());
    *ok = false;
    return nullptr;
  }
}

static mef::Parameter* find(mef::Model* model, const std::string& name) {
  for (mef::Parameter& p : model->table<mef::Parameter>())
    if (p.name() == name)
      return &p;
  return nullptr;
}

static void expressions(const std::vector<std::string>& w) {
  bool ok;
  auto model = load(w[1], &ok);
  if (!ok)
    return;
  std::vector<double> points;
  std::stringstream ss(w[2]);
  for (double d; ss >> d;)
    points.push_back(d);
  std::vector<mef::Parameter*> us, ps;
  for (size_t i = 3; i < w.size(); ++i)
    ps.push_back(find(model.get(), w[i]));
  for (int i = 0;; ++i) {
    mef::Parameter* u = find(model.get(), "u" + std::to_string(i));
    if (!u)
      break;
    us.push_back(u);
  }
  for (size_t i = 0; i < ps.size(); ++i) {
    mef::Interval v = ps[i]->interval();
    std::printf("P %s %.17g %.17g %.17g %d\n", w[3 + i].c_str(),
                ps[i]->value(), v.lower(), v.upper(),
                static_cast<int>(ps[i]->IsDeviate()));
  }
  Access access;
  std::vector<unsigned> idx(us.size(), 0);
  while (true) {
    std::vector<uint32_t> words;
    for (unsigned i : idx) {
      double f = points[i];
      words.push_back(f >= 1 ? 0xffffffffu : 0);
      words.push_back(f >= 1 ? 0xffffffffu
                             : static_cast<uint32_t>(f * 4294967296.0));
    }
    force(&access.get(), words);
    std::printf("S");
    for (mef::Parameter* u : us)
      std::printf(" %.17g", u->Sample());
    for (mef::Parameter* p : ps)
      std::printf(" %.17g", p->Sample());
    for (mef::Parameter* p : ps)  // Sampled values stay until they are reset.
      if (double a = p->Sample(), b = p->Sample();
          std::memcmp(&a, &b, sizeof(a)) != 0)
        std::printf(" UNSTABLE");
    for (mef::Parameter* p : ps)
      p->Reset();
    for (mef::Parameter* u : us)
      u->Reset();
    std::printf("\n");
    size_t k = 0;
    while (k < idx.size() && ++idx[k] == points.size())
      idx[k++] = 0;
    if (k == idx.size())
      break;
  }
  // Resetting the expression alone must forget the draws of all its arguments: the second
  // round draws everything afresh, whatever the order of evaluation (equal words).
  for (mef::Parameter* p : ps) {
    for (auto [a, b] : {std::pair(0.0, 1.0), {1.0, 0.25}, {0.5, 0.0}, {0.25, 0.75}}) {
      auto words = [](double f) {
        std::vector<uint32_t> res;
        for (int i = 0; i < 8; ++i) {
          res.push_back(f >= 1 ? 0xffffffffu : 0);
          res.push_back(f >= 1 ? 0xffffffffu
                               : static_cast<uint32_t>(f * 4294967296.0));
        }
        return res;
      };
      force(&access.get(), words(a));
      p->Sample();
      p->Reset();
      force(&access.get(), words(b));
      double s = p->Sample();
      std::printf("R %.17g", b);
      for (mef::Parameter* u : us)
        std::printf(" %.17g", u->Sample());
      std::printf(" %.17g\n", s);
      p->Reset();
      for (mef::Parameter* u : us)
        u->Reset();
    }
  }
  std::printf("OK\n");
}

static double reference(const std::string& kind, const std::vector<double>& a,
                        std::mt19937& g) {
  if (kind == "uniform")
    return std::uniform_real_distribution<double>(a[0], a[1])(g);
  if (kind == "normal")
    return std::normal_distribution<double>(a[0], a[1])(g);
  if (kind == "lognormal")  // mu, sigma
    return std::lognormal_distribution<double>(a[0], a[1])(g);
  if (kind == "gamma")
    return std::gamma_distribution<double>(a[0], a[1])(g);
  if (kind == "beta")
  {
    // Both gamma variates may vanish: the mean stands for their undefined ratio.
    double x = boost::random::beta_distribution<double>(a[0], a[1])(g);
    return std::isnan(x) ? a[0] / (a[0] + a[1]) : x;
  }
  // histogram: n, boundaries (n + 1), weights (n)
  int n = a[0];
  return std::piecewise_constant_distribution<double>(
      a.begin() + 1, a.begin() + n + 2, a.begin() + n + 2)(g);
}

static void deviate(const std::vector<std::string>& w) {
  bool ok;
  auto model = load(w[1], &ok);
  if (!ok)
    return;
  mef::Parameter* p = find(model.get(), "p");
  mef::Interval v = p->interval();
  std::printf("P p %.17g %.17g %.17g %d\n", p->value(), v.lower(), v.upper(),
              static_cast<int>(p->IsDeviate()));
  std::vector<double> args;
  for (size_t i = 3; i < w.size(); ++i)
    args.push_back(std::stod(w[i]));
  const uint32_t alphabet[] = {0u,          1u,          0x3fffffffu,
                               0x80000000u, 0xc0000001u, 0xffffffffu};
  const int kWords = 4, kLetters = 6;
  Access access;
  long count = 0;
  double lo = INFINITY, hi = -INFINITY;
  for (int code = 0; code < std::pow(kLetters, kWords); ++code) {
    std::vector<uint32_t> words;
    for (int i = 0, c = code; i < kWords; ++i, c /= kLetters)
      words.push_back(alphabet[c % kLetters]);
    force(&access.get(), words);
    std::mt19937 ref = access.get();
    double s = p->Sample();
    double again = p->Sample();
    bool same = std::memcmp(&again, &s, sizeof(s)) == 0;
    p->Reset();
    double r = reference(w[2], args, ref);
    ++count;
    lo = std::min(lo, s);
    hi = std::max(hi, s);
    if (std::isnan(r) && std::isnan(s) && same)
      continue;  // A measure-zero corner of the library distribution.
    if (!same || std::isnan(s) ||
        !(s == r || std::abs(s - r) <= 1e-9 * std::abs(r) + 1e-300))
      std::printf("BAD %d sample %.17g reference %.17g stable %d\n", code, s, r,
                  static_cast<int>(same));
  }
  std::printf("N %ld %.17g %.17g\nOK\n", count, lo, hi);
}

int main(int argc, char** argv) {
  std::ifstream list(argv[1]);
  std::string line;
  for (int n = 0; std::getline(list, line); ++n) {
    std::vector<std::string> w;
    std::stringstream ss(line);
    for (std::string f; std::getline(ss, f, '\t');)
      w.push_back(f);
    std::printf("J %d\n", n);
    std::fflush(stdout);
    if (w[0] == "E")
      expressions(w);
    else
      deviate(w);
    std::fflush(stdout);
  }
  std::printf("END\n");
  return 0;
}
