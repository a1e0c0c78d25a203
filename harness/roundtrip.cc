// Loads a model, serializes it, loads the result, and prints both structures.
// usage: roundtrip SCRATCH-DIR
// input per model: "M N LEN1 .. LENN\n" and the N file texts; output per model: "1 ..." lines of
// the model as loaded, "S LEN\n" + the serialized text + "\n", "2 ..." lines of the model read
// back, then "OK", or "ERR stage|type|message".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <variant>
#include <vector>

#include <boost/core/demangle.hpp>
#include <boost/exception/all.hpp>

#include "src/error.h"
#include "src/event.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/serialization.h"
#include "src/settings.h"

using namespace scram;

static std::string quote(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char buf[8];
    if (c < 0x21 || c == '"' || c == '%' || c >= 0x7f) {
      std::snprintf(buf, sizeof buf, "%%%02x", c);
      r += buf;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

static std::string common(const mef::Element& e) {
  std::set<std::string> attrs;
  for (const mef::Attribute& a : e.attributes())
    attrs.insert(quote(a.name()) + "=" + quote(a.value()) + ":" + quote(a.type()));
  std::string s = quote(e.name()) + " l=" + quote(e.label());
  for (const std::string& a : attrs) s += " a:" + a;
  return s;
}

static std::string expr(mef::Expression& e) {
  char buf[64];
  if (auto* c = dynamic_cast<mef::ConstantExpression*>(&e)) {
    std::snprintf(buf, sizeof buf, "%.17g", c->value());
    return buf;
  }
  std::string s = dynamic_cast<mef::Exponential*>(&e) ? "exponential"
                                                      : boost::core::demangle(typeid(e).name());
  s += "(";
  for (mef::Expression* a : e.args()) s += expr(*a) + ",";
  return s + ")";
}

static std::string formula(const mef::Formula& f) {
  std::string s = mef::kConnectiveToString[f.connective()];
  if (f.min_number()) s += ":" + std::to_string(*f.min_number());
  if (f.max_number()) s += ":" + std::to_string(*f.max_number());
  for (const mef::Formula::Arg& a : f.args()) {
    s += a.complement ? " -" : " +";
    if (auto* x = std::get_if<mef::Gate*>(&a.event)) {
      s += "G" + quote((*x)->id());
    } else if (auto* x = std::get_if<mef::BasicEvent*>(&a.event)) {
      s += "B" + quote((*x)->id());
    } else if (auto* x = std::get_if<mef::HouseEvent*>(&a.event)) {
      if (*x == &mef::HouseEvent::kTrue) {
        s += "T";
      } else if (*x == &mef::HouseEvent::kFalse) {
        s += "F";
      } else {
        s += "H" + quote((*x)->id());
      }
    } else {
      s += "?";
    }
  }
  return s;
}

static std::string role(const mef::Id& e) {
  return e.role() == mef::RoleSpecifier::kPublic ? "public" : "private " + std::string(e.full_path());
}

static void dump(const mef::Model& cmodel, const char* prefix) {
  mef::Model& model = const_cast<mef::Model&>(cmodel);
  std::set<std::string> out;
  out.insert("M " + (model.HasDefaultName() ? "- l=" + quote(model.label()) : common(model)));
  if (model.HasDefaultName())
    for (const mef::Attribute& a : model.attributes())
      out.insert("MA " + quote(a.name()) + "=" + quote(a.value()) + ":" + quote(a.type()));
  for (const mef::FaultTree& t : model.fault_trees()) {
    out.insert("F " + common(t));
    for (const mef::Gate& g : t.gates()) out.insert("FG " + quote(t.name()) + " " + quote(g.id()));
  }
  for (mef::Gate& g : model.table<mef::Gate>())
    out.insert("G " + common(g) + " " + role(g) + " " + formula(g.formula()));
  for (mef::BasicEvent& b : model.table<mef::BasicEvent>())
    out.insert("B " + common(b) + " " + role(b) + " " + (b.HasExpression() ? expr(b.expression()) : "-"));
  for (mef::HouseEvent& h : model.table<mef::HouseEvent>())
    out.insert("H " + common(h) + " " + role(h) + (h.state() ? " 1" : " 0"));
  for (const std::string& s : out) std::printf("%s %s\n", prefix, s.c_str());
}

static std::string flat(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '|') c = ' ';
  return s;
}

int main(int, char** argv) {
  std::string dir = argv[1];
  core::Settings settings;
  int n;
  while (std::scanf(" M %d", &n) == 1) {
    std::vector<std::size_t> len(n);
    for (auto& x : len)
      if (std::scanf("%zu", &x) != 1) return 3;
    if (std::getchar() != '\n') return 3;
    std::vector<std::string> files;
    for (int i = 0; i < n; ++i) {
      std::string text(len[i], 0);
      if (std::fread(&text[0], 1, len[i], stdin) != len[i]) return 3;
      files.push_back(dir + "/f" + std::to_string(i) + ".xml");
      FILE* f = std::fopen(files.back().c_str(), "w");
      std::fwrite(text.data(), 1, len[i], f);
      std::fclose(f);
    }
    const char* stage = "load";
    try {
      std::unique_ptr<mef::Model> model = mef::Initializer(files, settings).model();
      dump(*model, "1");
      std::fflush(stdout);
      std::string back = dir + "/back.xml";
      stage = "serialize";
      mef::Serialize(*model, back);
      FILE* f = std::fopen(back.c_str(), "r");
      std::string text;
      char buf[4096];
      for (std::size_t k; (k = std::fread(buf, 1, sizeof buf, f)) > 0;) text.append(buf, k);
      std::fclose(f);
      std::printf("S %zu\n", text.size());
      std::fwrite(text.data(), 1, text.size(), stdout);
      std::printf("\n");
      stage = "reload";
      std::unique_ptr<mef::Model> again = mef::Initializer({back}, settings).model();
      dump(*again, "2");
      std::printf("OK\n");
    } catch (const Error& err) {
      std::printf("ERR %s|%s|%s\n", stage, flat(boost::core::demangle(typeid(err).name())).c_str(),
                  flat(err.what()).c_str());
    } catch (const std::exception& err) {
      std::printf("ERR %s|std::exception|%s\n", stage, flat(err.what()).c_str());
    }
    std::fflush(stdout);
  }
  return 0;
}
