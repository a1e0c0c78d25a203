// Explores histories of editor commands (gui/model.h) on small models, in the order a user of the
// editor can issue them, with undo and redo of every one; compares the model, its proxies, its
// signals and its views with a plain reference state after every step.
// usage: gui BASE DEPTH PART PARTS ALPHABET [DIR]     (DIR: save and load every state there)
#include <QCoreApplication>
#include <QUndoStack>

#include <unistd.h>

#include <algorithm>
#include <csignal>
#include <exception>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "src/element.h"
#include "src/env.h"
#include "src/error.h"
#include "src/event.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/ext/variant.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/serialization.h"
#include "src/parameter.h"
#include "src/settings.h"
#include "src/xml.h"

#include "gui/elementcontainermodel.h"
#include "gui/model.h"
#include "gui/modeltree.h"

using namespace scram;
namespace gm = scram::gui::model;
using std::string;

enum Kind { BASIC, HOUSE, GATE };

// ------------------------------------------------------------------ the reference state

struct Arg {
  bool neg;
  string name;
};

struct Ev {
  Kind kind = BASIC;
  string label;
  int flavor = 0;     // basic
  bool extra = false; // basic: one more attribute, in front of the flavor
  int expr = -1;      // basic
  bool state = false; // house
  int conn = mef::kNull, min = 0;  // gate
  std::vector<Arg> args;
  string tree;        // gate
};

struct State {
  string name;
  std::set<string> trees;
  std::map<string, Ev> ev;

  std::vector<string> parents(const string& id) const {
    std::vector<string> res;
    for (auto& [n, e] : ev)
      for (auto& a : e.args)
        if (e.kind == GATE && a.name == id) res.push_back(n);
    return res;
  }
  bool reaches(const string& from, const string& to) const {
    if (from == to) return true;
    auto it = ev.find(from);
    if (it == ev.end()) return false;
    for (auto& a : it->second.args)
      if (reaches(a.name, to)) return true;
    return false;
  }
};

static string formula_text(int conn, int min, const std::vector<Arg>& args) {
  string s = mef::kConnectiveToString[conn];
  if (conn == mef::kAtleast) s += std::to_string(min);
  for (auto& a : args) s += (a.neg ? " ~" : " ") + a.name;
  return s;
}

static string dump(const State& s) {
  string o = "model '" + s.name + "'\n";
  for (auto& t : s.trees) {
    o += "tree " + t + ":";
    for (auto& [n, e] : s.ev)
      if (e.kind == GATE && e.tree == t) o += " " + n;
    o += "\n";
  }
  for (auto& [n, e] : s.ev) {
    o += n + " '" + e.label + "' ";
    if (e.kind == BASIC)
      o += "basic flavor" + std::to_string(e.flavor) + " expr" + std::to_string(e.expr) + (e.extra ? " zone=south" : "");
    else if (e.kind == HOUSE)
      o += string("house ") + (e.state ? "true" : "false");
    else
      o += "gate " + formula_text(e.conn, e.min, e.args);
    o += " parents:";
    for (auto& p : s.parents(n)) o += " " + p;
    o += "\n";
  }
  return o;
}

// ------------------------------------------------------------------ the live model and its observers

static const double kValues[] = {0.1, 0.25, 0.5};
static string g_word;  // what is being carried out, for messages from within Qt

struct Row {
  QString id, label;
  int flavor = 0;
  const void* expr = nullptr;
  bool state = false;
  string formula;
};

/// What a view that repaints only what it was told to repaint shows.
struct View {
  QAbstractItemModel* m;
  std::vector<std::vector<QString>> cells;
  std::vector<string> errors;

  explicit View(QAbstractItemModel* model) : m(model) {
    reset();
    QObject::connect(m, &QAbstractItemModel::modelReset, [this] { reset(); });
    QObject::connect(m, &QAbstractItemModel::rowsInserted,
                     [this](const QModelIndex& p, int first, int last) {
                       if (p.isValid()) return;
                       for (int r = first; r <= last; ++r)
                         cells.insert(cells.begin() + r, read(r));
                     });
    QObject::connect(m, &QAbstractItemModel::rowsRemoved,
                     [this](const QModelIndex& p, int first, int last) {
                       if (p.isValid()) return;
                       cells.erase(cells.begin() + first, cells.begin() + last + 1);
                     });
    QObject::connect(m, &QAbstractItemModel::dataChanged,
                     [this](const QModelIndex& a, const QModelIndex& b) {
                       if (a.parent().isValid()) return;
                       for (int r = a.row(); r <= b.row(); ++r)
                         for (int c = a.column(); c <= b.column(); ++c) {
                           if (r < 0 || r >= int(cells.size()) || c < 0 || c >= int(cells[r].size()))
                             errors.push_back("dataChanged outside of the table");
                           else
                             cells[r][c] = text(r, c);
                         }
                     });
  }
  QString text(int r, int c) {
    return m->data(m->index(r, c, QModelIndex()), Qt::DisplayRole).toString();
  }
  std::vector<QString> read(int r) {
    std::vector<QString> row;
    for (int c = 0; c < m->columnCount(QModelIndex()); ++c) row.push_back(text(r, c));
    return row;
  }
  void reset() {
    cells.clear();
    for (int r = 0; r < m->rowCount(QModelIndex()); ++r) cells.push_back(read(r));
  }
};

static string join(const std::vector<QString>& row) {
  string s;
  for (auto& x : row) s += "|" + x.toStdString();
  return s;
}

struct World {
  std::unique_ptr<mef::Model> model;
  std::vector<mef::Expression*> exprs;
  std::unique_ptr<gm::Model> proxy;
  std::unique_ptr<gm::BasicEventContainerModel> basics;
  std::unique_ptr<gm::HouseEventContainerModel> houses;
  std::unique_ptr<gm::GateContainerModel> gates;
  std::unique_ptr<gui::ModelTree> tree;
  std::vector<std::unique_ptr<View>> views;
  std::map<QObject*, Row> seen[3];       // what the signals told
  std::map<QObject*, std::vector<QMetaObject::Connection>> conns;
  std::set<mef::FaultTree*> seen_trees;
  QString seen_name;
  std::vector<string> signal_errors;
  std::unique_ptr<QUndoStack> stack;

  mef::Formula::ArgEvent event(const string& id) { return model->GetEvent(id); }

  template <class T>
  T* get(const string& id) {
    auto range = model->table<typename T::Origin>();
    auto it = range.find(id);
    if (it == range.end()) throw std::runtime_error("no event " + id);
    return proxy->table<T>().find(&*it)->get();
  }

  std::unique_ptr<mef::Formula> formula(const Ev& e) {
    mef::Formula::ArgSet set;
    for (auto& a : e.args) set.Add(event(a.name), a.neg);
    std::optional<int> min;
    if (e.conn == mef::kAtleast) min = e.min;
    return std::make_unique<mef::Formula>(static_cast<mef::Connective>(e.conn), std::move(set), min);
  }
  std::unique_ptr<mef::BasicEvent> basic(const string& id, const Ev& e) {
    auto x = std::make_unique<mef::BasicEvent>(id);
    x->label(e.label);
    if (e.extra) x->AddAttribute({"zone", "south", "text"});
    if (e.flavor) x->AddAttribute({"flavor", "undeveloped", ""});
    if (e.expr >= 0) x->expression(exprs[e.expr]);
    return x;
  }
  std::unique_ptr<mef::HouseEvent> house(const string& id, const Ev& e) {
    auto x = std::make_unique<mef::HouseEvent>(id);
    x->label(e.label);
    x->state(e.state);
    return x;
  }
  std::unique_ptr<mef::Gate> gate(const string& id, const Ev& e) {
    auto x = std::make_unique<mef::Gate>(id);
    x->label(e.label);
    x->formula(formula(e));
    return x;
  }
  mef::FaultTree* ft(const string& name) {
    auto range = model->table<mef::FaultTree>();
    auto it = range.find(name);
    if (it == range.end()) throw std::runtime_error("no tree " + name);
    return &*it;
  }

  explicit World(const State& s) {
    model = std::make_unique<mef::Model>(s.name);
    auto own = [&](std::unique_ptr<mef::Expression> e) {
      auto* p = e.get();
      model->Add(std::move(e));
      return p;
    };
    exprs.push_back(own(std::make_unique<mef::ConstantExpression>(kValues[0])));
    exprs.push_back(own(std::make_unique<mef::ConstantExpression>(kValues[1])));
    auto* rate = own(std::make_unique<mef::ConstantExpression>(kValues[2]));
    exprs.push_back(own(std::make_unique<mef::Exponential>(rate, &model->mission_time())));
    for (auto& t : s.trees) model->Add(std::make_unique<mef::FaultTree>(t));
    std::set<string> todo;
    for (auto& [n, e] : s.ev) {
      if (e.kind == BASIC) model->Add(basic(n, e));
      if (e.kind == HOUSE) model->Add(house(n, e));
      if (e.kind == GATE) todo.insert(n);
    }
    while (!todo.empty())
      for (auto it = todo.begin(); it != todo.end();) {
        const Ev& e = s.ev.at(*it);
        if (std::any_of(e.args.begin(), e.args.end(), [&](auto& a) { return todo.count(a.name); })) {
          ++it;
          continue;
        }
        auto g = gate(*it, e);
        ft(e.tree)->Add(g.get());
        model->Add(std::move(g));
        it = todo.erase(it);
      }
    for (auto& t : s.trees) ft(t)->CollectTopEvents();
    observe();
  }

  Row read(gm::BasicEvent* x) {
    return {x->id(), x->label(), x->flavor(), x->expression(), false, ""};
  }
  Row read(gm::HouseEvent* x) { return {x->id(), x->label(), 0, nullptr, x->state(), ""}; }
  Row read(gm::Gate* x) { return {x->id(), x->label(), 0, nullptr, false, raw(x)}; }
  string raw(gm::Gate* x) {
    std::ostringstream os;
    os << int(x->type()) << ' ' << x->minNumber().value_or(-1);
    for (auto& a : x->args()) os << ' ' << a.complement << ext::as<const mef::Event*>(a.event);
    return os.str();
  }
  template <class T>
  static int slot() {
    return std::is_same_v<T, gm::BasicEvent> ? 0 : std::is_same_v<T, gm::HouseEvent> ? 1 : 2;
  }
  template <class T>
  void watch(T* x) {
    auto& s = seen[slot<T>()];
    if (s.count(x)) signal_errors.push_back("added twice: " + x->id().toStdString());
    s[x] = read(x);
    auto& c = conns[x];
    c.push_back(QObject::connect(x, &gm::Element::idChanged, [this, x, &s](const QString& v) { s[x].id = v; }));
    c.push_back(QObject::connect(x, &gm::Element::labelChanged, [this, x, &s](const QString& v) { s[x].label = v; }));
    if constexpr (std::is_same_v<T, gm::BasicEvent>) {
      c.push_back(QObject::connect(x, &gm::BasicEvent::flavorChanged, [x, &s](gm::BasicEvent::Flavor f) { s[x].flavor = f; }));
      c.push_back(QObject::connect(x, &gm::BasicEvent::expressionChanged, [x, &s](mef::Expression* e) { s[x].expr = e; }));
    }
    if constexpr (std::is_same_v<T, gm::HouseEvent>)
      c.push_back(QObject::connect(x, &gm::HouseEvent::stateChanged, [x, &s](bool v) { s[x].state = v; }));
    if constexpr (std::is_same_v<T, gm::Gate>)
      c.push_back(QObject::connect(x, &gm::Gate::formulaChanged, [this, x, &s] { s[x].formula = raw(x); }));
  }
  template <class T>
  void unwatch(T* x) {
    if (!seen[slot<T>()].erase(x)) signal_errors.push_back("removed, but never added");
    for (auto& c : conns[x]) QObject::disconnect(c);
    conns.erase(x);
  }
  template <class T>
  void track() {
    for (auto& x : proxy->table<T>()) watch(x.get());
    QObject::connect(proxy.get(), qOverload<T*>(&gm::Model::added), [this](T* x) { watch(x); });
    QObject::connect(proxy.get(), qOverload<T*>(&gm::Model::removed), [this](T* x) { unwatch(x); });
  }
  void observe() {
    proxy = std::make_unique<gm::Model>(model.get());
    basics = std::make_unique<gm::BasicEventContainerModel>(proxy.get());
    houses = std::make_unique<gm::HouseEventContainerModel>(proxy.get());
    gates = std::make_unique<gm::GateContainerModel>(proxy.get());
    tree = std::make_unique<gui::ModelTree>(proxy.get());
    views.push_back(std::make_unique<View>(basics.get()));
    views.push_back(std::make_unique<View>(houses.get()));
    views.push_back(std::make_unique<View>(gates.get()));
    views.push_back(std::make_unique<View>(tree.get()));
    track<gm::BasicEvent>();
    track<gm::HouseEvent>();
    track<gm::Gate>();
    for (auto& t : model->table<mef::FaultTree>()) seen_trees.insert(&t);
    QObject::connect(proxy.get(), qOverload<mef::FaultTree*>(&gm::Model::added),
                     [this](mef::FaultTree* t) {
                       if (!seen_trees.insert(t).second) signal_errors.push_back("tree added twice");
                     });
    QObject::connect(proxy.get(), qOverload<mef::FaultTree*>(&gm::Model::removed),
                     [this](mef::FaultTree* t) {
                       if (!seen_trees.erase(t)) signal_errors.push_back("tree removed, but never added");
                     });
    seen_name = QString::fromStdString(model->GetOptionalName());
    QObject::connect(proxy.get(), &gm::Model::modelNameChanged, [this](QString n) { seen_name = n; });
    stack = std::make_unique<QUndoStack>();
  }
  ~World() {
    stack.reset();
    views.clear();
    tree.reset();
    gates.reset();
    houses.reset();
    basics.reset();
    proxy.reset();
  }
};

/// The state of a model, with the elements found by iteration and by name.
static string dump_model(mef::Model& m, const std::function<int(mef::BasicEvent&)>& expr,
                         std::vector<string>* bad) {
  State s;
  s.name = m.GetOptionalName();
  auto live = [&](const mef::Formula::ArgEvent& e) {
    const string& id = ext::as<const mef::Event*>(e)->id();
    bool ok = false;
    if (auto* const* g = std::get_if<mef::Gate*>(&e)) {
      auto it = m.table<mef::Gate>().find(id);
      ok = it != m.table<mef::Gate>().end() && &*it == *g;
    } else if (auto* const* b = std::get_if<mef::BasicEvent*>(&e)) {
      auto it = m.table<mef::BasicEvent>().find(id);
      ok = it != m.table<mef::BasicEvent>().end() && &*it == *b;
    } else {
      auto* h = std::get<mef::HouseEvent*>(e);
      auto it = m.table<mef::HouseEvent>().find(id);
      ok = it != m.table<mef::HouseEvent>().end() && &*it == h;
    }
    if (!ok) bad->push_back("argument " + id + " is not the event of the model");
  };
  auto common = [&](mef::Event& e, Kind k) -> Ev& {
    if (s.ev.count(e.name())) bad->push_back("event " + e.name() + " is twice in the model");
    if (e.id() != e.name()) bad->push_back("event " + e.name() + " has id " + e.id());
    Ev& r = s.ev[e.name()];
    r.kind = k;
    r.label = e.label();
    try {
      if (ext::as<const mef::Event*>(m.GetEvent(e.id())) != &e)
        bad->push_back("event " + e.name() + " is another one by its name");
    } catch (const mef::UndefinedElement&) {
      bad->push_back("event " + e.name() + " cannot be found by its name");
    }
    return r;
  };
  for (mef::BasicEvent& b : m.table<mef::BasicEvent>()) {
    Ev& r = common(b, BASIC);
    if (auto* a = b.GetAttribute("flavor")) r.flavor = a->value() == "undeveloped";
    if (auto* a = b.GetAttribute("zone")) {
      r.extra = a->value() == "south" && a->type() == "text";
    }
    std::size_t known = r.extra;
    known += b.GetAttribute("flavor") != nullptr;
    if (b.attributes().size() != known) bad->push_back("attributes of " + b.name());
    r.expr = expr(b);
  }
  for (mef::HouseEvent& h : m.table<mef::HouseEvent>()) common(h, HOUSE).state = h.state();
  for (mef::Gate& g : m.table<mef::Gate>()) {
    Ev& r = common(g, GATE);
    r.conn = g.formula().connective();
    r.min = g.formula().min_number().value_or(0);
    for (auto& a : g.formula().args()) {
      live(a.event);
      r.args.push_back({a.complement, ext::as<const mef::Event*>(a.event)->id()});
    }
  }
  for (mef::FaultTree& t : m.table<mef::FaultTree>()) {
    if (!s.trees.insert(t.name()).second) bad->push_back("tree twice");
    for (const mef::Gate& g : t.gates()) {
      auto it = m.table<mef::Gate>().find(g.id());
      if (it == m.table<mef::Gate>().end() || &*it != &g) {
        bad->push_back("tree " + t.name() + " holds a gate " + g.id() + " that is not in the model");
        continue;
      }
      auto jt = t.gates().find(g.id());
      if (jt == t.gates().end() || &*jt != &g)
        bad->push_back("tree " + t.name() + " does not find its gate " + g.id());
      if (!s.ev[g.id()].tree.empty()) bad->push_back("gate " + g.id() + " is in two trees");
      s.ev[g.id()].tree = t.name();
    }
    if (t.top_events().empty()) bad->push_back("tree " + t.name() + " has lost its top");
    for (const mef::Gate* g : t.top_events()) {
      bool found = false;
      for (const mef::Gate& x : t.gates()) found |= &x == g;
      if (!found) bad->push_back("the top of tree " + t.name() + " is not one of its gates");
    }
  }
  for (auto& [n, e] : s.ev)
    if (e.kind == GATE && e.tree.empty()) bad->push_back("gate " + n + " is in no tree");
  return dump(s);
}

static string qs(const QString& s) { return s.toStdString(); }

/// Everything that disagrees with the reference; empty if nothing does.
static std::vector<string> check(World& w, const State& s) {
  std::vector<string> bad;
  string ref = dump(s);
  string got = dump_model(*w.model, [&](mef::BasicEvent& b) {
    if (!b.HasExpression()) return -1;
    for (std::size_t i = 0; i < w.exprs.size(); ++i)
      if (w.exprs[i] == &b.expression()) return int(i);
    return 99;
  }, &bad);
  if (got != ref) bad.push_back("the model is\n" + got + "and should be\n" + ref);
  // The proxies.
  auto proxies = [&](auto& table, auto range, const char* what) {
    if (table.size() != range.size()) bad.push_back(string(what) + ": number of proxies");
    for (auto& e : range)
      if (table.find(&e) == table.end()) bad.push_back("no proxy for " + e.id());
  };
  proxies(w.proxy->basicEvents(), w.model->table<mef::BasicEvent>(), "basic events");
  proxies(w.proxy->houseEvents(), w.model->table<mef::HouseEvent>(), "house events");
  proxies(w.proxy->gates(), w.model->table<mef::Gate>(), "gates");
  if (!bad.empty()) return bad;  // what follows would read what is not there
  auto parents = [&](mef::Formula::ArgEvent e, const string& id) {
    std::multiset<string> ps, rs;
    for (gm::Gate* g : w.proxy->parents(e)) ps.insert(qs(g->id()));
    for (auto& p : s.parents(id)) rs.insert(p);
    if (ps != rs) bad.push_back("parents of " + id);
  };
  std::multiset<string> rows[3], shown[3];
  for (auto& x : w.proxy->basicEvents()) {
    const Ev& e = s.ev.at(qs(x->id()));
    parents(x->data(), qs(x->id()));
    if (int(x->flavor()) != e.flavor) bad.push_back("flavor of " + qs(x->id()));
    if (qs(x->label()) != e.label) bad.push_back("label of " + qs(x->id()));
    mef::Expression* ex = e.expr < 0 ? nullptr : w.exprs[e.expr];
    if (x->expression() != ex) bad.push_back("expression of " + qs(x->id()));
    string p = e.expr < 0 ? "" : qs(QVariant(ex->value()).toString());
    rows[0].insert("|" + qs(x->id()) + "|" + (e.flavor ? "Undeveloped" : "Basic") + "|" + p + "|" + e.label);
  }
  for (auto& x : w.proxy->houseEvents()) {
    const Ev& e = s.ev.at(qs(x->id()));
    parents(x->data(), qs(x->id()));
    if (x->state() != e.state) bad.push_back("state of " + qs(x->id()));
    rows[1].insert("|" + qs(x->id()) + "|" + (e.state ? "True" : "False") + "|" + e.label);
  }
  for (auto& x : w.proxy->gates()) {
    const Ev& e = s.ev.at(qs(x->id()));
    parents(x->data(), qs(x->id()));
    string c = mef::kConnectiveToString[e.conn];
    if (e.conn == mef::kAtleast) c = "at-least " + std::to_string(e.min);
    if (x->numArgs() != int(e.args.size())) bad.push_back("arguments of " + qs(x->id()));
    rows[2].insert("|" + qs(x->id()) + "|" + c + "|" + std::to_string(e.args.size()) + "|" + e.label);
  }
  // What the signals told.
  auto told = [&](auto& table, int k) {
    if (w.seen[k].size() != table.size()) bad.push_back("signals: number of events");
    for (auto& x : table) {
      auto it = w.seen[k].find(x.get());
      if (it == w.seen[k].end()) {
        bad.push_back("signals: never told of " + qs(x->id()));
        continue;
      }
      Row now = w.read(x.get());
      const Row& t = it->second;
      if (t.id != now.id || t.label != now.label || t.flavor != now.flavor || t.expr != now.expr ||
          t.state != now.state || t.formula != now.formula)
        bad.push_back("signals: not told the current data of " + qs(x->id()));
    }
  };
  told(w.proxy->basicEvents(), 0);
  told(w.proxy->houseEvents(), 1);
  told(w.proxy->gates(), 2);
  std::set<mef::FaultTree*> trees;
  for (auto& t : w.model->table<mef::FaultTree>()) trees.insert(&t);
  if (trees != w.seen_trees) bad.push_back("signals: the trees");
  if (w.seen_name.toStdString() != s.name) bad.push_back("signals: the model name");
  for (auto& e : w.signal_errors) bad.push_back("signals: " + e);
  // What the views show.
  for (int k = 0; k < 4; ++k) {
    View& v = *w.views[k];
    for (auto& e : v.errors) bad.push_back("view: " + e);
    if (int(v.cells.size()) != v.m->rowCount(QModelIndex())) {
      bad.push_back("view: number of rows");
      continue;
    }
    for (int r = 0; r < int(v.cells.size()); ++r) {
      if (v.cells[r] != v.read(r))
        bad.push_back("view: row" + join(v.cells[r]) + " was not refreshed to" + join(v.read(r)));
      if (k < 3) shown[k].insert(join(v.cells[r]));
    }
    if (k < 3 && shown[k] != rows[k]) {
      string t = "view: shows";
      for (auto& x : shown[k]) t += " " + x;
      t += " and should show";
      for (auto& x : rows[k]) t += " " + x;
      bad.push_back(t);
    }
  }
  std::size_t n[3] = {0, 0, 0};
  for (auto& [id, e] : s.ev) ++n[e.kind];
  std::vector<string> top = {"Fault Trees (" + std::to_string(s.trees.size()) + ")",
                             "Gates (" + std::to_string(n[GATE]) + ")",
                             "Basic Events (" + std::to_string(n[BASIC]) + ")",
                             "House Events (" + std::to_string(n[HOUSE]) + ")"};
  for (int r = 0; r < 4; ++r)
    if (qs(w.views[3]->cells[r][0]) != top[r]) bad.push_back("tree view: " + qs(w.views[3]->cells[r][0]));
  QModelIndex root = w.tree->index(0, 0, QModelIndex());
  std::vector<string> names;
  for (int r = 0; r < w.tree->rowCount(root); ++r)
    names.push_back(qs(w.tree->data(w.tree->index(r, 0, root), Qt::DisplayRole).toString()));
  if (names != std::vector<string>(s.trees.begin(), s.trees.end())) bad.push_back("tree view: the trees");
  for (int r = 0; r < w.gates->rowCount(QModelIndex()); ++r) {
    QModelIndex g = w.gates->index(r, 0, QModelIndex());
    const Ev& e = s.ev.at(qs(w.gates->data(g, Qt::DisplayRole).toString()));
    if (e.kind != GATE || w.gates->rowCount(g) != int(e.args.size())) {
      bad.push_back("gate view: arguments");
      continue;
    }
    for (int i = 0; i < int(e.args.size()); ++i) {
      QModelIndex c = w.gates->index(i, 0, g);
      if (qs(w.gates->data(c, Qt::DisplayRole).toString()) != e.args[i].name)
        bad.push_back("gate view: argument names");
      if (w.gates->parent(c) != g) bad.push_back("gate view: parent");
    }
  }
  return bad;
}

/// Saves the model, loads it anew and compares.
static std::vector<string> reload(World& w, const State& s, const string& dir) {
  std::vector<string> bad;
  string file = dir + "/gui_" + std::to_string(getpid()) + ".xml";
  bool complements = false;  // the editor has none
  for (auto& [n, e] : s.ev)
    for (auto& a : e.args) complements |= a.neg;
  try {
    mef::Serialize(*w.model, file);
    static xml::Validator validator(env::install_dir() + "/share/scram/gui.rng");
    std::unique_ptr<mef::Model> m = mef::Initializer({file}, core::Settings(), false, complements ? nullptr : &validator).model();
    string got = dump_model(*m, [&m](mef::BasicEvent& b) {
      if (!b.HasExpression()) return -1;
      if (auto* x = dynamic_cast<mef::Exponential*>(&b.expression()))
        return x->args()[0]->value() == kValues[2] && x->args()[1] == &m->mission_time() ? 2 : 98;
      return b.expression().value() == kValues[0] ? 0 : b.expression().value() == kValues[1] ? 1 : 99;
    }, &bad);
    if (got != dump(s)) bad.push_back("saved and loaded, the model is\n" + got + "and should be\n" + dump(s));
  } catch (const std::exception& e) {
    bad.push_back(string("saved, the model cannot be loaded: ") + e.what());
  }
  std::remove(file.c_str());
  return bad;
}

// ------------------------------------------------------------------ the commands

struct Letter {
  string text;
  std::function<void(World&)> push;
  State next;
};

struct Alphabet {
  bool wide;  // all values of every field
};

template <class F, class T>
static void change_to(World& w, const string& id, std::unique_ptr<typename T::Origin> e, mef::FaultTree* ft) {
  w.stack->push(new gm::Model::ChangeEventType<F, T>(w.get<F>(id), std::move(e), w.proxy.get(), ft));
}

template <class F>
static void change(World& w, const string& id, const Ev& e, mef::FaultTree* ft) {
  if constexpr (!std::is_same_v<F, gm::BasicEvent>)
    if (e.kind == BASIC) return change_to<F, gm::BasicEvent>(w, id, w.basic(id, e), ft);
  if constexpr (!std::is_same_v<F, gm::HouseEvent>)
    if (e.kind == HOUSE) return change_to<F, gm::HouseEvent>(w, id, w.house(id, e), ft);
  if constexpr (!std::is_same_v<F, gm::Gate>)
    if (e.kind == GATE) return change_to<F, gm::Gate>(w, id, w.gate(id, e), ft);
}

/// The commands that a user of the editor can issue in the state.
static std::vector<Letter> letters(const State& s, bool wide, const std::map<string, string>& tops) {
  std::vector<Letter> res;
  auto add = [&](const string& text, State next, std::function<void(World&)> push) {
    res.push_back({text, std::move(push), std::move(next)});
  };
  static const string kNames[] = {"a", "n1", "n2"};
  std::vector<string> fresh;
  for (auto& n : kNames)
    if (!s.ev.count(n) && (wide || fresh.empty())) fresh.push_back(n);
  auto is_top = [&](const string& id) {
    auto& e = s.ev.at(id);
    return e.kind == GATE && tops.at(e.tree) == id;
  };
  // The tree that the dialog finds for the event: the gate's own or the one of a parent.
  auto tree_of = [&](const string& id) -> string {
    auto& e = s.ev.at(id);
    if (e.kind == GATE) return e.tree;
    auto ps = s.parents(id);
    return ps.empty() ? "" : s.ev.at(ps.front()).tree;
  };
  // Formulas over other events that make no cycle.
  auto formulas = [&](const string& id, bool many) {
    std::vector<Ev> fs;
    std::vector<string> c;
    for (auto& [n, e] : s.ev)
      if (!s.reaches(n, id)) c.push_back(n);
    auto put = [&](int conn, int min, std::vector<Arg> args) {
      Ev e;
      e.kind = GATE;
      e.conn = conn;
      e.min = min;
      e.args = std::move(args);
      fs.push_back(e);
    };
    if (!c.empty()) put(mef::kNull, 0, {{false, c.front()}});
    if (c.size() > 1) put(mef::kOr, 0, {{false, c[1]}, {true, c[0]}});
    if (many) {
      if (!c.empty()) put(mef::kNot, 0, {{false, c.back()}});
      if (c.size() > 1) {
        put(mef::kAnd, 0, {{false, c[0]}, {false, c.back()}});
        put(mef::kXor, 0, {{false, c[0]}, {false, c[1]}});
      }
      if (c.size() > 2) put(mef::kAtleast, 2, {{false, c[2]}, {true, c[0]}, {false, c[1]}});
    }
    return fs;
  };

  for (const string& n : {string(), string("m1"), string("m2")})
    if (n != s.name && (wide || n != "m2")) {
      State t = s;
      t.name = n;
      add("name the model '" + n + "'", t, [n](World& w) {
        w.stack->push(new gm::Model::SetName(QString::fromStdString(n), w.proxy.get()));
      });
    }

  for (auto& [id_, e_] : s.ev) {
    const string id = id_;
    const Ev e = e_;
    for (const string& label : {string(), string("L"), string("x<&>")})
      if (label != e.label && (wide || label != "x<&>")) {
        State t = s;
        t.ev[id].label = label;
        add("label " + id + " '" + label + "'", t, [id, label, e](World& w) {
          gm::Element* x = e.kind == BASIC ? static_cast<gm::Element*>(w.get<gm::BasicEvent>(id))
                           : e.kind == HOUSE ? static_cast<gm::Element*>(w.get<gm::HouseEvent>(id))
                                             : w.get<gm::Gate>(id);
          w.stack->push(new gm::Element::SetLabel(x, QString::fromStdString(label)));
        });
      }
    for (const string& n : fresh) {
      State t = s;
      auto node = t.ev.extract(id);
      node.key() = n;
      t.ev.insert(std::move(node));
      for (auto& [k, g] : t.ev)
        for (auto& a : g.args)
          if (a.name == id) a.name = n;
      string tree = tree_of(id);
      add("rename " + id + " to " + n, t, [id, n, e, tree](World& w) {
        QString q = QString::fromStdString(n);
        mef::FaultTree* ft = tree.empty() ? nullptr : w.ft(tree);
        if (e.kind == BASIC)
          w.stack->push(new gm::Element::SetId<gm::BasicEvent>(w.get<gm::BasicEvent>(id), q, w.model.get(), ft));
        else if (e.kind == HOUSE)
          w.stack->push(new gm::Element::SetId<gm::HouseEvent>(w.get<gm::HouseEvent>(id), q, w.model.get(), ft));
        else
          w.stack->push(new gm::Element::SetId<gm::Gate>(w.get<gm::Gate>(id), q, w.model.get(), ft));
      });
    }
    if (e.kind == BASIC) {
      for (int x = -1; x < 3; ++x)
        if (x != e.expr && (wide || x != 1)) {
          State t = s;
          t.ev[id].expr = x;
          add("expression " + std::to_string(x) + " for " + id, t, [id, x](World& w) {
            w.stack->push(new gm::BasicEvent::SetExpression(w.get<gm::BasicEvent>(id),
                                                            x < 0 ? nullptr : w.exprs[x]));
          });
        }
      State t = s;
      t.ev[id].flavor = !e.flavor;
      add("flavor " + std::to_string(!e.flavor) + " for " + id, t, [id, e](World& w) {
        w.stack->push(new gm::BasicEvent::SetFlavor(w.get<gm::BasicEvent>(id),
                                                    e.flavor ? gm::BasicEvent::Basic : gm::BasicEvent::Undeveloped));
      });
    }
    if (e.kind == HOUSE) {
      State t = s;
      t.ev[id].state = !e.state;
      add("flip " + id, t, [id, e](World& w) {
        w.stack->push(new gm::HouseEvent::SetState(w.get<gm::HouseEvent>(id), !e.state));
      });
    }
    if (e.kind == GATE)
      for (const Ev& f : formulas(id, wide)) {
        State t = s;
        t.ev[id].conn = f.conn;
        t.ev[id].min = f.min;
        t.ev[id].args = f.args;
        add("formula of " + id + ": " + formula_text(f.conn, f.min, f.args), t, [id, f](World& w) {
          w.stack->push(new gm::Gate::SetFormula(w.get<gm::Gate>(id), w.formula(f)));
        });
      }
    // Another type.
    string tree = tree_of(id);
    for (Kind k : {BASIC, HOUSE, GATE}) {
      if (k == e.kind || is_top(id) || (k == GATE && tree.empty())) continue;
      std::vector<Ev> targets;
      if (k == GATE) {
        targets = formulas(id, false);
        for (Ev& x : targets) {
          x.tree = tree;
          x.label = e.label;
        }
      } else {
        Ev x;
        x.kind = k;
        x.label = e.label;
        x.state = true;
        x.flavor = e.kind == HOUSE;
        x.expr = e.kind == GATE ? 0 : -1;
        targets.push_back(x);
      }
      for (const Ev& x : targets) {
        State t = s;
        t.ev[id] = x;
        add("make " + id + " a " + (k == BASIC ? "basic event" : k == HOUSE ? "house event" : "gate " + formula_text(x.conn, x.min, x.args)),
            t, [id, e, x, tree](World& w) {
              mef::FaultTree* ft = tree.empty() ? nullptr : w.ft(tree);
              if (e.kind == BASIC) change<gm::BasicEvent>(w, id, x, ft);
              if (e.kind == HOUSE) change<gm::HouseEvent>(w, id, x, ft);
              if (e.kind == GATE) change<gm::Gate>(w, id, x, ft);
            });
      }
    }
    // Removal.
    if (s.parents(id).empty()) {
      State t = s;
      t.ev.erase(id);
      if (e.kind == BASIC)
        add("remove " + id, t, [id](World& w) {
          w.stack->push(new gm::Model::RemoveEvent<gm::BasicEvent>(w.get<gm::BasicEvent>(id), w.proxy.get()));
        });
      else if (e.kind == HOUSE)
        add("remove " + id, t, [id](World& w) {
          w.stack->push(new gm::Model::RemoveEvent<gm::HouseEvent>(w.get<gm::HouseEvent>(id), w.proxy.get()));
        });
      else if (!is_top(id))
        add("remove " + id, t, [id, tree](World& w) {
          w.stack->push(new gm::Model::RemoveEvent<gm::Gate>(w.get<gm::Gate>(id), w.proxy.get(), w.ft(tree)));
        });
      else if (std::count_if(s.ev.begin(), s.ev.end(), [&](auto& p) {
                 return p.second.kind == GATE && p.second.tree == e.tree;
               }) == 1) {
        t.trees.erase(e.tree);
        add("remove " + id + " with its tree", t, [id, tree](World& w) {
          mef::FaultTree* ft = w.ft(tree);
          w.stack->beginMacro("remove");
          w.stack->push(new gm::Model::RemoveEvent<gm::Gate>(w.get<gm::Gate>(id), w.proxy.get(), ft));
          w.stack->push(new gm::Model::RemoveFaultTree(ft, w.proxy.get()));
          w.stack->endMacro();
        });
      }
    }
  }
  // Additions.
  for (const string& n : fresh) {
    for (int v = 0; v < (wide ? 2 : 1); ++v) {
      Ev b;
      b.label = v ? "new" : "";
      b.flavor = v;
      b.expr = v ? -1 : 2;
      State t = s;
      t.ev[n] = b;
      add("add basic event " + n + (v ? "'" : ""), t, [n, b](World& w) {
        w.stack->push(new gm::Model::AddEvent<gm::BasicEvent>(w.basic(n, b), w.proxy.get()));
      });
    }
    Ev h;
    h.kind = HOUSE;
    h.state = true;
    State t = s;
    t.ev[n] = h;
    add("add house event " + n, t, [n, h](World& w) {
      w.stack->push(new gm::Model::AddEvent<gm::HouseEvent>(w.house(n, h), w.proxy.get()));
    });
    for (const string& tree : {string("T"), string("A2")}) {
      if (s.trees.count(tree) || (!wide && tree == "A2")) continue;
      std::vector<Ev> fs = formulas(n, false);
      Ev undefined;
      undefined.kind = GATE;
      undefined.conn = mef::kNot;
      undefined.args = {{false, "u"}};
      if (!s.ev.count("u")) fs.push_back(undefined);
      for (Ev f : fs) {
        bool defines = f.args.front().name == "u" && !s.ev.count("u");
        f.tree = tree;
        State t = s;
        t.trees.insert(tree);
        t.ev[n] = f;
        if (defines) t.ev["u"].flavor = 1;
        add("add gate " + n + " in tree " + tree + ": " + formula_text(f.conn, f.min, f.args), t,
            [n, f, tree, defines](World& w) {
              w.stack->beginMacro("add");
              auto ft = std::make_unique<mef::FaultTree>(tree);
              auto* address = ft.get();
              w.stack->push(new gm::Model::AddFaultTree(std::move(ft), w.proxy.get()));
              if (defines) {
                Ev u;
                u.flavor = 1;
                w.stack->push(new gm::Model::AddEvent<gm::BasicEvent>(w.basic("u", u), w.proxy.get()));
              }
              w.stack->push(new gm::Model::AddEvent<gm::Gate>(w.gate(n, f), w.proxy.get(), address));
              address->CollectTopEvents();
              w.stack->endMacro();
            });
      }
    }
  }
  return res;
}

// ------------------------------------------------------------------ the models

static State base(int k) {
  State s;
  auto basic = [&](string n, int expr, int flavor = 0, string label = "") {
    Ev& e = s.ev[n];
    e.expr = expr;
    e.flavor = flavor;
    e.label = label;
    e.extra = n != "e2" || flavor;
  };
  auto house = [&](string n, bool v) {
    s.ev[n].kind = HOUSE;
    s.ev[n].state = v;
  };
  auto gate = [&](string n, string tree, int conn, std::vector<Arg> args, int min = 0) {
    Ev& e = s.ev[n];
    e.kind = GATE;
    e.tree = tree;
    s.trees.insert(tree);
    e.conn = conn;
    e.min = min;
    e.args = args;
  };
  switch (k) {
    case 0:  // one gate
      basic("e1", 0);
      gate("g1", "F", mef::kNull, {{false, "e1"}});
      break;
    case 1:  // a gate shared by nobody, a house event, a complement
      s.name = "m0";
      basic("e1", 0);
      basic("e2", -1, 1, "L");
      house("h1", true);
      gate("g1", "F", mef::kOr, {{false, "g2"}, {false, "e1"}});
      gate("g2", "F", mef::kAnd, {{false, "h1"}, {true, "e2"}});
      break;
    case 2:  // two trees, an event and a gate shared between them
      basic("e1", 0);
      basic("e2", 1);
      gate("g1", "F", mef::kAtleast, {{false, "e1"}, {false, "e2"}, {true, "g2"}}, 2);
      gate("g2", "F", mef::kXor, {{false, "e1"}, {false, "e2"}});
      gate("k1", "K", mef::kNot, {{false, "e1"}});
      break;
    case 3:  // events that nothing refers to
      basic("e1", 0);
      basic("e2", 2);
      house("h1", false);
      gate("g1", "F", mef::kNor, {{false, "e1"}, {false, "h1"}});
      break;
    case 4:  // three levels
      basic("e1", 0);
      gate("g1", "F", mef::kNull, {{false, "g2"}});
      gate("g2", "F", mef::kNull, {{false, "g3"}});
      gate("g3", "F", mef::kNot, {{false, "e1"}});
      break;
  }
  return s;
}

/// The first gate of each tree stays its root; follow it by the commands.
using Tops = std::map<string, string>;

struct Search {
  World* w;
  bool wide;
  string dir;
  bool reloads;
  std::vector<string> word;
  std::unordered_set<string> states;
  long transitions = 0, words = 0, reloaded = 0;
  int violations = 0;

  void report(const char* when, const std::vector<string>& bad) {
    if (bad.empty()) return;
    ++violations;
    std::cout << "BAD " << when << ":";
    for (auto& x : word) std::cout << " [" << x << "]";
    std::cout << "\n";
    for (auto& b : bad) std::cout << "  " << b << "\n";
    std::cout << "END" << std::endl;
    std::exit(1);  // the live model cannot be trusted any more
  }
  void visit(const State& s) {
    ++transitions;
    string key = dump(s);
    for (auto& [n, e] : s.ev)
      if (e.kind == GATE) key += e.tree;
    if (states.insert(key).second && reloads) {
      ++reloaded;
      report("save and load", reload(*w, s, dir));
    }
  }

  static Tops follow(Tops t, const State& a, const State& b) {
    for (auto& tree : b.trees)
      if (!a.trees.count(tree))
        for (auto& [n, e] : b.ev)
          if (e.kind == GATE && e.tree == tree) t[tree] = n;
    for (auto& tree : a.trees)
      if (!b.trees.count(tree)) t.erase(tree);
    for (auto& [tree, top] : t)
      if (!b.ev.count(top))  // renamed: the only gate of the tree that is new
        for (auto& [n, e] : b.ev)
          if (e.kind == GATE && e.tree == tree && !a.ev.count(n)) top = n;
    return t;
  }

  void run(const State& s, const Tops& tops, int depth, int part, int parts, std::vector<State>* path) {
    auto all = letters(s, wide, tops);
    for (std::size_t i = 0; i < all.size(); ++i) {
      if (parts > 1 && int(i % parts) != part) continue;
      const Letter& l = all[i];
      word.push_back(l.text);
      g_word = l.text;
      l.push(*w);
      visit(l.next);
      report("after the last command", check(*w, l.next));
      path->push_back(l.next);
      w->stack->undo();
      ++transitions;
      report("after undoing the last command", check(*w, s));
      w->stack->redo();
      ++transitions;
      report("after redoing the last command", check(*w, l.next));
      if (depth > 1) {
        run(l.next, follow(tops, s, l.next), depth - 1, 0, 1, path);
      } else {
        ++words;
        int n = path->size() - 1;
        for (int k = n - 1; k >= 0; --k) {
          w->stack->undo();
          ++transitions;
          if (k < n - 1) report(("after undoing all down to " + std::to_string(k)).c_str(), check(*w, (*path)[k]));
        }
        for (int k = 1; k <= n; ++k) {
          w->stack->redo();
          ++transitions;
          report(("after undoing all and redoing " + std::to_string(k)).c_str(), check(*w, (*path)[k]));
        }
      }
      w->stack->undo();
      ++transitions;
      if (depth > 1) report("after the longer histories, the last command undone", check(*w, s));
      path->pop_back();
      word.pop_back();
    }
  }
};

static void on_message(QtMsgType type, const QMessageLogContext&, const QString& msg) {
  if (type == QtDebugMsg || type == QtInfoMsg) return;
  std::cout << "BAD message from Qt or the editor: [" << g_word << "]\n  " << msg.toStdString() << "\nEND" << std::endl;
  std::exit(1);
}

static Search* g_search;

static void on_signal(int n) {
  std::cout << "BAD signal " << n << ":";
  for (auto& x : g_search->word) std::cout << " [" << x << "]";
  std::cout << "\n  the process was ended\nEND" << std::endl;
  std::_Exit(1);
}

int main(int argc, char** argv) {
  qInstallMessageHandler(on_message);
  State s = base(std::atoi(argv[1]));
  int depth = std::atoi(argv[2]), part = std::atoi(argv[3]), parts = std::atoi(argv[4]);
  Search search;
  g_search = &search;
#ifndef __SANITIZE_ADDRESS__
  for (int n : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) std::signal(n, on_signal);
#endif
  std::set_terminate([] {
    try {
      std::rethrow_exception(std::current_exception());
    } catch (const std::exception& e) {
      std::cout << e.what() << std::endl;
    }
    std::abort();
  });
  search.wide = string(argv[5]) == "wide";
  search.reloads = argc > 6;
  search.dir = argc > 6 ? argv[6] : "";
  World w(s);
  search.w = &w;
  Tops tops;
  for (auto& t : s.trees) {
    if (w.ft(t)->top_events().size() != 1) std::abort();
    tops[t] = w.ft(t)->top_events().front()->id();
  }
  std::vector<State> path{s};
  search.report("before anything", check(w, s));
  search.run(s, tops, depth, part, parts, &path);
  // The commands that were undone are discarded with the stack.
  w.stack->clear();
  search.word = {"everything undone and forgotten"};
  search.report("at the end", check(w, s));
  if (search.reloads) {
    std::ofstream out(search.dir + "/states_" + std::to_string(getpid()));
    for (auto& x : search.states) out << std::hash<string>()(x) << "\n";
  }
  std::printf("N states %zu\nN transitions %ld\nN words %ld\nN reloads %ld\n", search.states.size(),
              search.transitions, search.words, search.reloaded);
}
