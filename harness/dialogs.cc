// Explores the editor's dialogs (gui/eventdialog.h, gui/settingsdialog.h) through their widgets.
// usage: dialogs show DIR                  what each dialog shows of each element and of each settings
//        dialogs event DIR BASE DEPTH PART PARTS     all sequences of user actions on the event dialog
//        dialogs window DIR BASE DEPTH PART PARTS    the same in the main window, saved, undone, redone
//        dialogs settings DEPTH PART PARTS  all sequences of clicks on the settings dialog
#include <QAction>
#include <QApplication>
#include <QCheckBox>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QDoubleSpinBox>
#include <QGroupBox>
#include <QLineEdit>
#include <QListWidget>
#include <QMessageBox>
#include <QTabWidget>
#include <QTimer>
#include <QTreeView>
#include <QUndoStack>
#include <QPushButton>
#include <QRadioButton>
#include <QSpinBox>
#include <QTextEdit>
#include <QPlainTextEdit>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "src/event.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/settings.h"

#include "gui/eventdialog.h"
#include "gui/mainwindow.h"
#include "gui/model.h"
#include "gui/modeltree.h"
#include "gui/settingsdialog.h"

using namespace scram;
namespace gm = scram::gui::model;
using scram::gui::EventDialog;
using scram::gui::SettingsDialog;
using std::string;

static long g_bad = 0, g_states = 0, g_transitions = 0, g_shown = 0;
static std::set<string> g_seen;
static string g_where;

static void bad(const string& where, const string& what) {
  if (++g_bad > 40) return;
  std::cout << "BAD " << where << "\n" << what << "\nEND" << std::endl;
}

static void on_message(QtMsgType type, const QMessageLogContext&, const QString& text) {
  if (type == QtCriticalMsg || type == QtFatalMsg) {
    std::cout << "BAD " << g_where << "\nthe editor reports: " << text.toStdString() << "\nEND" << std::endl;
    std::_Exit(3);
  }
}

template <class T>
T* find(QWidget& d, const char* name) {
  T* w = d.findChild<T*>(QString::fromLatin1(name));
  if (!w) {
    std::cerr << "no widget " << name << std::endl;
    std::exit(4);
  }
  return w;
}

static const char* kConn[] = {"and", "or", "atleast", "xor", "not", "nand", "nor", ""};

// ------------------------------------------------------------------ a model

struct GateDef {
  int conn = mef::kNull, min = 0;
  std::vector<string> args;
  string tree = "FT";
};

struct Def {
  std::map<string, GateDef> gates;  // "top" is the root
  std::map<string, string> basic;   // the expression element, "" for none
  std::map<string, bool> house;
  std::set<string> undeveloped;
  std::map<string, string> label;
};

static string document(const Def& d) {
  std::ostringstream o;
  auto label = [&](const string& n) {
    auto it = d.label.find(n);
    return it == d.label.end() ? string() : "<label>" + it->second + "</label>";
  };
  o << "<opsa-mef>";
  std::set<string> trees;
  for (auto& [n, g] : d.gates) trees.insert(g.tree);
  for (auto& tree : trees) {
  o << "<define-fault-tree name=\"" << tree << "\">";
  for (auto& [n, g] : d.gates) {
    if (g.tree != tree) continue;
    o << "<define-gate name=\"" << n << "\">" << label(n);
    if (g.conn == mef::kAtleast)
      o << "<atleast min=\"" << g.min << "\">";
    else if (g.conn != mef::kNull)
      o << "<" << kConn[g.conn] << ">";
    for (auto& a : g.args) o << "<event name=\"" << a << "\"/>";
    if (g.conn != mef::kNull) o << "</" << kConn[g.conn] << ">";
    o << "</define-gate>";
  }
  o << "</define-fault-tree>";
  }
  o << "<model-data>";
  for (auto& [n, e] : d.basic) {
    o << "<define-basic-event name=\"" << n << "\">" << label(n);
    if (d.undeveloped.count(n)) o << "<attributes><attribute name=\"flavor\" value=\"undeveloped\"/></attributes>";
    o << e << "</define-basic-event>";
  }
  for (auto& [n, s] : d.house)
    o << "<define-house-event name=\"" << n << "\">" << label(n) << "<constant value=\"" << (s ? "true" : "false")
      << "\"/></define-house-event>";
  o << "</model-data></opsa-mef>";
  return o.str();
}

static std::unique_ptr<mef::Model> load(const Def& d, const string& dir) {
  string f = dir + "/model.xml";
  std::ofstream(f) << document(d);
  return mef::Initializer({f}, core::Settings(), false, nullptr).model();
}

static string join(const std::vector<string>& v) {
  string r;
  for (auto& x : v) r += (r.empty() ? "" : " ") + x;
  return r;
}

static const double kValues[] = {0,      1,        0.5,     0.1,      0.25,       0.123456789,       1e-7, 1.23456789e-7,
                                 1.0 / 3, 0.9999999, 1e-300, 0.30000000000000004, 5e-324, 0.1234567, 0.99999999999999989};

static string num(double v) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}

// The widgets of one event dialog.
struct D {
  EventDialog& dialog;
  QPushButton* ok;
  QLineEdit *name, *constant, *rate, *add, *tree;
  QComboBox *type, *conn, *expr, *state;
  QGroupBox* has;
  QSpinBox* min;
  QListWidget* args;
  QPushButton *add_button, *remove_button;

  explicit D(EventDialog& x)
      : dialog(x),
        ok(find<QDialogButtonBox>(dialog, "buttonBox")->button(QDialogButtonBox::Ok)),
        name(find<QLineEdit>(dialog, "nameLine")),
        constant(find<QLineEdit>(dialog, "constantValue")),
        rate(find<QLineEdit>(dialog, "exponentialRate")),
        add(find<QLineEdit>(dialog, "addArgLine")),
        tree(find<QLineEdit>(dialog, "containerFaultTreeName")),
        type(find<QComboBox>(dialog, "typeBox")),
        conn(find<QComboBox>(dialog, "connectiveBox")),
        expr(find<QComboBox>(dialog, "expressionType")),
        state(find<QComboBox>(dialog, "stateBox")),
        has(find<QGroupBox>(dialog, "expressionBox")),
        min(find<QSpinBox>(dialog, "minNumberBox")),
        args(find<QListWidget>(dialog, "argsList")),
        add_button(find<QPushButton>(dialog, "addArgButton")),
        remove_button(find<QPushButton>(dialog, "removeArgButton")) {}

  string expression(mef::Model*) {
    std::unique_ptr<mef::Expression> e = dialog.expression();
    if (!e) return "none";
    if (auto* c = dynamic_cast<mef::ConstantExpression*>(e.get())) return "constant " + num(c->value());
    if (auto* x = dynamic_cast<mef::Exponential*>(e.get())) return "exponential " + num(x->args().front()->value());
    return "other";
  }
};

static void expect(const string& where, const string& what, const string& got, const string& want) {
  if (got != want) bad(where, what + " is " + got + ", expected " + want);
}

static void show(const string& dir) {
  Def d;
  GateDef top;
  top.conn = mef::kOr;
  std::vector<string> leaves;
  std::map<string, string> expr;
  int k = 0;
  for (double v : kValues) {
    string c = "c" + std::to_string(k), x = "x" + std::to_string(k++);
    d.basic[c] = "<float value=\"" + num(v) + "\"/>";
    d.basic[x] = "<exponential><float value=\"" + num(v) + "\"/><system-mission-time/></exponential>";
    expr[c] = "constant " + num(v);
    expr[x] = "exponential " + num(v);
  }
  d.basic["n0"] = "";
  expr["n0"] = "none";
  d.house["h0"] = false;
  d.house["h1"] = true;
  for (const char* n : {"c1", "x3", "n0", "h1"}) d.label[n] = string("the label of ") + n;
  for (const char* n : {"c2", "x4"}) d.undeveloped.insert(n), d.label[n] = "undeveloped";
  for (auto& [n, e] : d.basic) leaves.push_back(n);
  leaves.push_back("h0");
  leaves.push_back("h1");
  int serial = 0;
  auto gate = [&](int conn, int n, int min) {
    GateDef g;
    g.conn = conn;
    g.min = min;
    for (int i = 0; i < n; ++i) g.args.push_back(leaves[(serial * 3 + i * 5) % leaves.size()]);
    std::set<string> u(g.args.begin(), g.args.end());
    if (u.size() != g.args.size()) std::exit(5);
    string id = "g" + std::to_string(serial++);
    if (serial % 2) d.label[id] = "gate " + id;
    d.gates[id] = g;
    top.args.push_back(id);
  };
  for (int n = 1; n <= 7; ++n)
    for (int c = 0; c < 8; ++c) {
      bool one = c == mef::kNot || c == mef::kNull;
      if (one ? n != 1 : c == mef::kXor ? n != 2 : n < 2) continue;
      if (c != mef::kAtleast)
        gate(c, n, 0);
      else
        for (int m = 2; m < n; ++m) gate(c, n, m);
    }
  for (auto& l : leaves) top.args.push_back(l);
  d.gates["top"] = top;
  auto model = load(d, dir);
  auto common = [&](D& w, const string& n) {
    ++g_shown;
    string where = "show " + n;
    g_where = where;
    expect(where, "the name", w.dialog.name().toStdString(), n);
    expect(where, "the label", w.dialog.label().toStdString(), d.label.count(n) ? d.label[n] : "");
    if (!w.ok->isEnabled()) bad(where, "the dialog with an element of the model as it is cannot be accepted");
  };
  for (auto& g : model->table<mef::Gate>()) {
    g_where = "show " + g.id();
    gm::Gate proxy(&g);
    EventDialog editor(model.get());
    D w(editor);
    w.dialog.setupData(proxy);
    w.dialog.show();
    common(w, g.id());
    const GateDef& want = d.gates[g.id()];
    string where = "show " + string(kConn[want.conn]) + " of " + std::to_string(want.args.size());
    if (want.conn == mef::kAtleast) where += " min " + std::to_string(want.min);
    if (w.dialog.currentType() != EventDialog::Gate) bad(where, "a gate is shown as another type");
    expect(where, "the connective", std::to_string(w.dialog.connective()), std::to_string(want.conn));
    if (want.conn == mef::kAtleast)
      expect(where, "the min number", std::to_string(w.dialog.minNumber()), std::to_string(want.min));
    // Arguments of a formula are a set.
    auto got = w.dialog.arguments(), args = want.args;
    std::sort(got.begin(), got.end());
    std::sort(args.begin(), args.end());
    expect(where, "the list of arguments", join(got), join(args));
    expect(where, "the fault tree", w.dialog.faultTree(), "FT");
  }
  for (auto& b : model->table<mef::BasicEvent>()) {
    g_where = "show " + b.id();
    gm::BasicEvent proxy(&b);
    EventDialog editor(model.get());
    D w(editor);
    w.dialog.setupData(proxy);
    w.dialog.show();
    common(w, b.id());
    expect("show " + b.id(), "the type", std::to_string(w.dialog.currentType()),
           std::to_string(d.undeveloped.count(b.id()) ? EventDialog::Undeveloped : EventDialog::BasicEvent));
    expect("show expression " + expr[b.id()], "the expression", w.expression(model.get()), expr[b.id()]);
  }
  for (auto& h : model->table<mef::HouseEvent>()) {
    g_where = "show " + h.id();
    gm::HouseEvent proxy(&h);
    EventDialog editor(model.get());
    D w(editor);
    w.dialog.setupData(proxy);
    w.dialog.show();
    common(w, h.id());
    if (w.dialog.currentType() != EventDialog::HouseEvent) bad("show " + h.id(), "a house event is shown as another type");
    if (w.dialog.booleanConstant() != d.house[h.id()]) bad("show " + h.id(), "the state is shown wrong");
  }
}

// ------------------------------------------------------------------ user actions on the event dialog

struct Ref {
  string own;   // the name of the element that is edited, "" for a new one
  string name, tree, constant, rate;
  int type = 0;  // index in the list: house, basic, undeveloped, gate
  bool has = false;
  int expr = 0;
  int conn = 0, min = 2;
  bool state = false;
  std::vector<string> args;
};

static bool identifier(const string& s) {
  if (s.empty() || !std::isalpha((unsigned char)s[0])) return false;
  for (size_t i = 1; i < s.size(); ++i)
    if (s[i] == '-') {
      if (i + 1 == s.size() || s[i + 1] == '-') return false;
    } else if (!std::isalnum((unsigned char)s[i]) && s[i] != '_') {
      return false;
    }
  return true;
}

static bool value_ok(const string& s, double max) {
  if (s.empty()) return false;
  char* end;
  double v = std::strtod(s.c_str(), &end);
  return !*end && v >= 0 && v <= max;
}

static bool reaches(const Def& d, const string& from, const string& to) {
  auto it = d.gates.find(from);
  if (it == d.gates.end()) return false;
  for (auto& a : it->second.args)
    if (a == to || reaches(d, a, to)) return true;
  return false;
}

static bool exists(const Def& d, const string& n) { return d.gates.count(n) || d.basic.count(n) || d.house.count(n); }

static bool valid(const Def& d, const Ref& r) {
  if (!identifier(r.name)) return false;
  if (r.name != r.own && exists(d, r.name)) return false;
  if (r.type == 1 || r.type == 2) {
    if (r.has && !(r.expr == 0 ? value_ok(r.constant, 1) : value_ok(r.rate, std::numeric_limits<double>::max())))
      return false;
  }
  if (r.type == 3) {
    int n = r.args.size();
    for (auto& a : r.args)
      if (a == r.name) return false;
    switch (r.conn) {
      case mef::kNot:
      case mef::kNull:
        if (n != 1) return false;
        break;
      case mef::kXor:
        if (n != 2) return false;
        break;
      case mef::kAtleast:
        if (n <= r.min) return false;
        break;
      default:
        if (n < 2) return false;
    }
    if (r.own.empty() && (!identifier(r.tree) || r.tree == "FT")) return false;
  }
  return true;
}

struct Action {
  string text;
  std::function<bool(const Def&, Ref&)> ref;  // false if a user cannot do this now
  std::function<void(D&)> real;
};

static std::vector<Action> actions(const string& own) {
  std::vector<Action> r;
  for (const char* n : {"fresh", "e0", "g1", "1x", "", "a-b"})
    if (string(n) != own)
      r.push_back({string("name '") + n + "'", [n](const Def&, Ref& s) { s.name = n; return true; },
                   [n](D& d) { d.name->setText(n); }});
  if (!own.empty())
    r.push_back({"name as it was", [own](const Def&, Ref& s) { s.name = own; return true; },
                 [own](D& d) { d.name->setText(QString::fromStdString(own)); }});
  if (own != "top")  // The top gate of a tree stays one.
    for (int t = 0; t < 4; ++t)
      r.push_back({"type " + std::to_string(t), [t](const Def&, Ref& s) { s.type = t; return true; },
                   [t](D& d) { d.type->setCurrentIndex(t); }});
    for (int button = 0; button < 2; ++button)
      for (const char* n : {"e0", "e1", "h0", "top", "g1", "g2", "fresh", "own"}) {
        if (button && string(n) != "e0") continue;
        string a = string(n) == "own" ? own : n;
        if (a.empty()) continue;
        if (string(n) != "own" && a == own) continue;
        r.push_back({"argument '" + a + (button ? "' by the button" : "'"),
                     [a](const Def& d, Ref& s) {
                       if (s.type != 3) return false;
                       // Its own name before the renaming would be another event after it.
                       if (!s.own.empty() && a == s.own && s.name != s.own) return false;
                       if (std::count(s.args.begin(), s.args.end(), a)) return true;
                       if (a == s.name || (!s.own.empty() && reaches(d, a, s.own))) return true;
                       s.args.push_back(a);
                       int max = std::max(2, int(s.args.size()) - 1);
                       s.min = std::min(s.min, max);
                       return true;
                     },
                     [a, button](D& d) {
                       d.add->setText(QString::fromStdString(a));
                       if (button)
                         d.add_button->click();
                       else
                         emit d.add->returnPressed();
                     }});
      }
    r.push_back({"remove an argument",
                 [](const Def&, Ref& s) {
                   if (s.type != 3) return false;
                   if (!s.args.empty()) s.args.pop_back();
                   s.min = std::min(s.min, std::max(2, int(s.args.size()) - 1));
                   return true;
                 },
                 [](D& d) {
                   d.args->setCurrentRow(-1);
                   d.remove_button->click();
                 }});
    for (int c = 0; c < 8; ++c)
      r.push_back({string("connective ") + (*kConn[c] ? kConn[c] : "null"),
                   [c](const Def&, Ref& s) {
                     if (s.type != 3) return false;
                     s.conn = c;
                     return true;
                   },
                   [c](D& d) { d.conn->setCurrentIndex(c); }});
    for (int m : {2, 3})
      r.push_back({"min " + std::to_string(m),
                   [m](const Def&, Ref& s) {
                     if (s.type != 3 || s.conn != mef::kAtleast) return false;
                     s.min = std::min(m, std::max(2, int(s.args.size()) - 1));
                     return true;
                   },
                   [m](D& d) { d.min->setValue(m); }});
  if (own.empty())
    for (const char* n : {"FT", "Other"})
      r.push_back({string("fault tree ") + n,
                   [n](const Def&, Ref& s) {
                     if (s.type != 3) return false;
                     s.tree = n;
                     return true;
                   },
                   [n](D& d) { d.tree->setText(n); }});
  if (own != "top") {
    r.push_back({"toggle the expression",
                 [](const Def&, Ref& s) {
                   if (s.type != 1 && s.type != 2) return false;
                   s.has = !s.has;
                   return true;
                 },
                 [](D& d) { d.has->setChecked(!d.has->isChecked()); }});
    for (int x = 0; x < 2; ++x)
      r.push_back({"expression type " + std::to_string(x),
                   [x](const Def&, Ref& s) {
                     if ((s.type != 1 && s.type != 2) || !s.has) return false;
                     s.expr = x;
                     return true;
                   },
                   [x](D& d) { d.expr->setCurrentIndex(x); }});
    for (const char* v : {"0.123456789", "1", "1.5", "-1", "", "abc", "1e-9", "0"}) {
      r.push_back({string("value '") + v + "'",
                   [v](const Def&, Ref& s) {
                     if ((s.type != 1 && s.type != 2) || !s.has) return false;
                     (s.expr ? s.rate : s.constant) = v;
                     return true;
                   },
                   [v](D& d) { (d.expr->currentIndex() ? d.rate : d.constant)->setText(v); }});
    }
    for (int b = 0; b < 2; ++b)
      r.push_back({"state " + std::to_string(b),
                   [b](const Def&, Ref& s) {
                     if (s.type != 0) return false;
                     s.state = b;
                     return true;
                   },
                   [b](D& d) { d.state->setCurrentIndex(b); }});
  }
  return r;
}

static string text(const Ref& s, bool full) {
  std::ostringstream o;
  o << s.name << "|" << s.type << "|";
  if (full || s.type == 0) o << s.state << "|";
  if (full || s.type == 1 || s.type == 2) o << s.has << s.expr << s.constant << "," << s.rate << "|";
  if (full || s.type == 3) o << s.conn << "," << s.min << "," << join(s.args) << "," << s.tree;
  return o.str();
}

// What an accepted dialog must give.
static void check(const string& where, const Def& d, const Ref& s, D& w, mef::Model* m) {
  bool want = valid(d, s);
  if (w.ok->isEnabled() != want)
    bad(where, string("the dialog ") + (want ? "does not accept a valid definition: " : "accepts an invalid definition: ") +
                   text(s, false));
  if (!want) return;
  expect(where, "the name", w.dialog.name().toStdString(), s.name);
  expect(where, "the type", std::to_string(w.dialog.currentType()), std::to_string(1 << s.type));
  if (s.type == 0 && w.dialog.booleanConstant() != s.state) bad(where, "the state is wrong");
  if (s.type == 1 || s.type == 2)
    expect(where, "the expression", w.expression(m),
           !s.has ? "none"
                  : s.expr == 0 ? "constant " + num(std::strtod(s.constant.c_str(), nullptr))
                                : "exponential " + num(std::strtod(s.rate.c_str(), nullptr)));
  if (s.type == 3) {
    expect(where, "the connective", std::to_string(w.dialog.connective()), std::to_string(s.conn));
    if (s.conn == mef::kAtleast) expect(where, "the min number", std::to_string(w.dialog.minNumber()), std::to_string(s.min));
    auto got = w.dialog.arguments(), args = s.args;
    std::sort(got.begin(), got.end());
    std::sort(args.begin(), args.end());
    expect(where, "the list of arguments", join(got), join(args));
    expect(where, "the fault tree", w.dialog.faultTree(), s.own.empty() ? s.tree : "FT");
  }
}

// ------------------------------------------------------------------ the main window

static string canon(const mef::Model& m) {
  std::set<string> lines;
  auto expression = [](const mef::BasicEvent& b) -> string {
    if (!b.HasExpression()) return "no expression";
    auto* e = &b.expression();
    if (auto* c = dynamic_cast<mef::ConstantExpression*>(e)) return "constant " + num(c->value());
    if (auto* x = dynamic_cast<mef::Exponential*>(e)) return "exponential " + num(x->args().front()->value());
    return "another expression";
  };
  for (const mef::FaultTree& t : m.table<mef::FaultTree>()) {
    lines.insert("tree " + t.name());
    for (const mef::Gate& g : t.gates()) {
      std::vector<string> args;
      for (const mef::Formula::Arg& a : g.formula().args())
        args.push_back((a.complement ? "not " : "") + std::visit([](auto* x) { return x->id(); }, a.event));
      std::sort(args.begin(), args.end());
      auto min = g.formula().min_number();
      lines.insert("gate " + g.id() + " of " + t.name() + " '" + string(g.label()) + "' " +
                   std::to_string(g.formula().connective()) + " " +
                   (g.formula().connective() == mef::kAtleast && min ? std::to_string(*min) : "") + " [" + join(args) + "]");
    }
  }
  for (const mef::BasicEvent& b : m.table<mef::BasicEvent>()) {
    string attributes;
    for (auto& a : b.attributes()) attributes += " " + string(a.name()) + "=" + string(a.value());
    lines.insert("basic event " + b.id() + " '" + string(b.label()) + "'" + attributes + " " + expression(b));
  }
  for (const mef::HouseEvent& h : m.table<mef::HouseEvent>())
    lines.insert("house event " + h.id() + " '" + string(h.label()) + "' " + (h.state() ? "true" : "false"));
  string r;
  for (auto& l : lines) r += l + "; ";
  return r;
}

// The model after the dialog is accepted.
static Def apply(const Def& d, const Ref& s) {
  Def r = d;
  if (!s.own.empty() && s.name != s.own) {
    for (auto& [n, g] : r.gates)
      for (auto& a : g.args)
        if (a == s.own) a = s.name;
    if (auto it = r.label.find(s.own); it != r.label.end()) r.label[s.name] = it->second;
    if (auto it = r.gates.find(s.own); it != r.gates.end()) r.gates[s.name] = it->second;
    r.gates.erase(s.own);
    r.basic.erase(s.own);
    r.house.erase(s.own);
    r.undeveloped.erase(s.own);
    r.label.erase(s.own);
  }
  r.undeveloped.erase(s.name);
  GateDef old;  // Of the element, if it is a gate.
  if (auto it = r.gates.find(s.name); it != r.gates.end()) old = it->second;
  r.house.erase(s.name);
  r.basic.erase(s.name);
  r.gates.erase(s.name);
  if (s.type == 0) r.house[s.name] = s.state;
  if (s.type == 1 || s.type == 2) {
    string v = num(std::strtod((s.expr ? s.rate : s.constant).c_str(), nullptr));
    string e = "<float value=\"" + v + "\"/>";
    r.basic[s.name] = !s.has ? "" : s.expr ? "<exponential>" + e + "<system-mission-time/></exponential>" : e;
    if (s.type == 2) r.undeveloped.insert(s.name);
  }
  if (s.type == 3) {
    GateDef& g = r.gates[s.name] = old;
    if (s.own.empty()) g.tree = s.tree;
    g.conn = s.conn;
    g.min = s.min;
    g.args = s.args;
    for (auto& a : s.args)
      if (!exists(r, a)) {
        r.basic[a] = "";
        r.undeveloped.insert(a);
      }
  }
  return r;
}

struct Window {
  string file, scratch;
  scram::gui::MainWindow window;
  QTimer watchdog;
  std::vector<QAbstractItemView*> views;
  QUndoStack* stack;
  std::map<string, string> cache;

  static string canon_of(const string& f) {
    try {
      return canon(*mef::Initializer({f}, core::Settings(), false, nullptr).model());
    } catch (const std::exception& e) {
      return string("cannot be loaded: ") + e.what();
    }
  }

  string canon_of(const Def& d) {
    string t = document(d);
    auto it = cache.find(t);
    if (it != cache.end()) return it->second;
    string f = scratch + "/want.xml";
    std::ofstream(f) << t;
    return cache[t] = canon_of(f);
  }

  Window(const Def& d, const string& dir) : file(dir + "/window.xml"), scratch(dir) {
    std::ofstream(file) << document(d);
    watchdog.setInterval(300);
    QObject::connect(&watchdog, &QTimer::timeout, [] {
      if (auto* m = qobject_cast<QMessageBox*>(QApplication::activeModalWidget())) {
        bad(g_where, "the editor shows a message: " + m->text().toStdString());
        std::_Exit(3);
      }
    });
    watchdog.start();
    g_where = "opening the model";
    window.show();
    if (!window.addInputFiles({file})) bad(g_where, "the model does not open");
    stack = window.findChild<QUndoStack*>();
    if (!stack) std::exit(7);
    auto* tree = find<QTreeView>(window, "modelTree");
    auto* tabs = find<QTabWidget>(window, "tabWidget");
    using Row = scram::gui::ModelTree::Row;
    for (Row row : {Row::Gates, Row::BasicEvents, Row::HouseEvents}) {
      emit tree->activated(tree->model()->index(static_cast<int>(row), 0));
      views.push_back(qobject_cast<QAbstractItemView*>(tabs->currentWidget()));
      if (!views.back()) std::exit(8);
    }
  }

  QAction* action(const char* n) { return find<QAction>(window, n); }

  template <class T>
  static T* find(QObject& o, const char* name) {
    T* w = o.findChild<T*>(QString::fromLatin1(name));
    if (!w) {
      std::cerr << "no " << name << std::endl;
      std::exit(4);
    }
    return w;
  }

  string saved() {
    action("actionSave")->trigger();
    return canon_of(file);
  }

  void run(const string& where, const Def& d, const Ref& s, const std::function<void(D&)>& act) {
    bool ok = valid(d, s), seen = false;
    QTimer::singleShot(0, [&] {
      auto* dialog = qobject_cast<EventDialog*>(QApplication::activeModalWidget());
      if (!dialog) return;
      seen = true;
      D w(*dialog);
      act(w);
      if (w.ok->isEnabled() != ok) bad(where, ok ? "a valid definition is not accepted" : "an invalid definition is accepted");
      if (ok && w.ok->isEnabled())
        w.ok->click();
      else
        dialog->reject();
    });
    if (s.own.empty()) {
      action("actionAddElement")->trigger();
    } else {
      QAbstractItemView* v = views[d.gates.count(s.own) ? 0 : d.house.count(s.own) ? 2 : 1];
      QModelIndex index;
      for (int i = 0; i < v->model()->rowCount(); ++i)
        if (v->model()->index(i, 0).data().toString().toStdString() == s.own) index = v->model()->index(i, 0);
      if (!index.isValid()) {
        bad(where, "the element is not in its table");
        return;
      }
      emit v->activated(index);
    }
    if (!seen) {
      bad(where, "no dialog");
      std::_Exit(3);
    }
    string before = canon_of(d), after = ok ? canon_of(apply(d, s)) : before;
    ++g_shown;
    if (before == after && stack->count() && stack->canUndo()) bad(where, "a dialog without changes leaves a command to undo");
    expect(where, "the saved model", saved(), after);
    while (stack->canUndo()) stack->undo();
    expect(where + "; undo", "the saved model", saved(), before);
    while (stack->canRedo()) stack->redo();
    expect(where + "; undo; redo", "the saved model", saved(), after);
    while (stack->canUndo()) stack->undo();
    // The next run starts with the model as it was and nothing to redo.
    saved();
    stack->clear();
  }
};

static void events(const string& dir, int base, int depth, int part, int parts, bool window) {
  Def d;
  d.gates["top"] = {mef::kOr, 0, {"g1", "g2", "e0"}};
  d.gates["g1"] = {mef::kAnd, 0, {"e1", "h0", "g2"}};
  d.gates["g2"] = {mef::kAtleast, 3, {"e0", "e1", "e2", "e3"}};
  d.basic = {{"e0", "<float value=\"0.123456789\"/>"},
             {"e1", ""},
             {"e2", "<exponential><float value=\"1.23456789e-7\"/><system-mission-time/></exponential>"},
             {"e3", "<float value=\"1\"/>"}};
  d.house["h0"] = true;
  auto model = load(d, dir);
  const char* kOwn[] = {"", "top", "g1", "g2", "e0", "e2", "h0"};
  string own = kOwn[base];
  Ref start;
  start.own = start.name = own;
  {
    // A new dialog starts as the designer drew it.
    EventDialog fresh(model.get());
    start.has = find<QGroupBox>(fresh, "expressionBox")->isChecked();
    start.state = find<QComboBox>(fresh, "stateBox")->currentIndex();
    start.type = find<QComboBox>(fresh, "typeBox")->currentIndex();
    start.conn = find<QComboBox>(fresh, "connectiveBox")->currentIndex();
  }
  bool gate = false;
  std::vector<std::function<void(D&)>> setup;
  if (d.gates.count(own)) {
    gate = true;
    start.type = 3;
    start.conn = d.gates[own].conn;
    start.min = std::max(2, d.gates[own].min);
    // As listed: the order of the formula.
    start.args.clear();
    for (const mef::Formula::Arg& a : model->table<mef::Gate>().find(own)->formula().args())
      start.args.push_back(std::visit([](auto* x) { return x->id(); }, a.event));
  } else if (d.basic.count(own)) {
    start.type = 1;
    start.has = true;
    start.expr = own == "e2";
    (start.expr ? start.rate : start.constant) = own == "e2" ? "1.23456789e-7" : "0.123456789";
  } else if (!own.empty()) {
    start.type = 0;
    start.state = true;
  }
  gm::Gate* pg = nullptr;
  gm::BasicEvent* pb = nullptr;
  gm::HouseEvent* ph = nullptr;
  if (gate) pg = new gm::Gate(&*model->table<mef::Gate>().find(own));
  if (d.basic.count(own)) pb = new gm::BasicEvent(&*model->table<mef::BasicEvent>().find(own));
  if (d.house.count(own)) ph = new gm::HouseEvent(&*model->table<mef::HouseEvent>().find(own));
  auto acts = actions(own);
  // A new event is explored further from a complete definition of each type.
  std::vector<std::vector<int>> prefixes{{}};
  auto act = [&](const string& t) {
    for (size_t i = 0; i < acts.size(); ++i)
      if (acts[i].text == t) return int(i);
    std::exit(6);
  };
  if (own.empty()) {
    int n = act("name 'fresh'");
    prefixes.push_back({n, act("type 3"), act("fault tree Other"), act("argument 'e0'"), act("argument 'e1'"),
                        act("argument 'h0'")});
    prefixes.push_back({act("name 'a-b'"), act("type 3"), act("fault tree Other"), act("argument 'e0'"),
                        act("argument 'e1'"), act("argument 'h0'"), act("argument 'fresh'"),
                        act("connective atleast"), act("min 3")});
    prefixes.push_back({n, act("type 2"), act("value '1e-9'")});
  } else if (gate) {
    prefixes.push_back({act("remove an argument"), act("argument 'fresh'")});
  }
  std::unique_ptr<Window> main;
  if (window) main = std::make_unique<Window>(d, dir);
  auto replay = [&](const std::vector<int>& word) {
    string where = own.empty() ? "a new event" : "the dialog of " + own;
    if (window) where = "the window: " + where;
    for (int i : word) where += "; " + acts[i].text;
    g_where = where;
    Ref s = start;
    for (int i : word)
      if (!acts[i].ref(d, s)) return false;
    g_transitions++;
    g_seen.insert(text(s, true));
    if (window) {
      main->run(where, d, s, [&](D& w) {
        for (int i : word) acts[i].real(w);
      });
      return true;
    }
    EventDialog editor(model.get());
    D w(editor);
    if (pg) w.dialog.setupData(*pg);
    if (pb) w.dialog.setupData(*pb);
    if (ph) w.dialog.setupData(*ph);
    w.dialog.show();
    for (int i : word) acts[i].real(w);
    check(where, d, s, w, model.get());
    return true;
  };
  int turn = 0;
  std::function<void(std::vector<int>&, int)> go = [&](std::vector<int>& word, int left) {
    if (!left) return;
    for (size_t i = 0; i < acts.size(); ++i) {
      word.push_back(i);
      // Parts divide the first action.
      bool mine = left != depth || turn++ % parts == part;
      if (mine && replay(word)) go(word, left - 1);
      word.pop_back();
    }
  };
  for (auto& p : prefixes) {
    std::vector<int> word = p;
    if (part == 0 && !replay(word)) bad("prefix", "cannot be done");
    go(word, depth);
  }
}

// ------------------------------------------------------------------ settings

static string text(const core::Settings& s) {
  std::ostringstream o;
  o << "algorithm " << int(s.algorithm()) << ", approximation " << int(s.approximation()) << ", prime implicants "
    << s.prime_implicants() << ", probability " << s.probability_analysis() << ", importance " << s.importance_analysis()
    << ", order " << s.limit_order() << ", mission time " << num(s.mission_time()) << ", uncertainty "
    << s.uncertainty_analysis() << ", ccf " << s.ccf_analysis() << ", sil " << s.safety_integrity_levels() << ", step "
    << num(s.time_step()) << ", cut-off " << num(s.cut_off()) << ", trials " << s.num_trials() << ", quantiles "
    << s.num_quantiles() << ", bins " << s.num_bins() << ", seed " << s.seed();
  return o.str();
}

static string hidden(const core::Settings& s) {
  string t = text(s);
  return t.substr(t.find("uncertainty"));
}

static std::vector<core::Settings> all_settings() {
  std::vector<core::Settings> r;
  struct Mode {
    core::Algorithm a;
    core::Approximation x;
    bool prime;
  };
  using A = core::Algorithm;
  using X = core::Approximation;
  for (Mode m : {Mode{A::kBdd, X::kNone, false}, Mode{A::kBdd, X::kNone, true}, Mode{A::kBdd, X::kRareEvent, false},
                 Mode{A::kBdd, X::kMcub, false}, Mode{A::kZbdd, X::kRareEvent, false}, Mode{A::kZbdd, X::kMcub, false},
                 Mode{A::kMocus, X::kRareEvent, false}, Mode{A::kMocus, X::kMcub, false}})
    for (int flags = 0; flags < 3; ++flags)
      for (int rest = 0; rest < 5; ++rest) {
        core::Settings s;
        s.algorithm(m.a);
        s.prime_implicants(m.prime);
        s.approximation(m.x);
        if (flags > 0) s.probability_analysis(true);
        if (flags > 1) s.importance_analysis(true);
        if (rest == 1) s.limit_order(100).mission_time(0.25);
        if (rest == 2) s.ccf_analysis(true).seed(17).num_trials(12).num_bins(3).num_quantiles(4).cut_off(1e-5);
        if (rest == 3) s.limit_order(0).mission_time(0).time_step(12).safety_integrity_levels(true);
        if (rest == 4) s.limit_order(1000000).mission_time(1234.5678).uncertainty_analysis(true);
        r.push_back(s);
      }
  return r;
}

static void settings(int depth, int part, int parts) {
  struct Click {
    const char* widget;
    bool radio;
  };
  const Click kClicks[] = {{"bdd", true},         {"zbdd", true},       {"mocus", true},      {"rareEvent", true},
                           {"mcub", true},        {"primeImplicants", false}, {"probability", false},
                           {"importance", false}, {"approximationsBox", false}, {"order 7", false}, {"time 12", false}};
  int turn = 0;
  for (auto& init : all_settings()) {
    if (turn++ % parts != part) continue;
    std::function<void(std::vector<int>&)> go = [&](std::vector<int>& word) {
      string where = "settings [" + text(init) + "]";
      for (int i : word) where += string("; ") + kClicks[i].widget;
      g_where = where;
      SettingsDialog dialog(init);
      dialog.show();
      bool last = false, order = false, time = false;
      for (int i : word) {
        string n = kClicks[i].widget;
        if (n == "order 7") {
          find<QSpinBox>(dialog, "productOrder")->setValue(7);
          order = true;
        } else if (n == "time 12") {
          find<QDoubleSpinBox>(dialog, "missionTime")->setValue(12);
          time = true;
        } else if (n == "approximationsBox") {
          auto* b = find<QGroupBox>(dialog, "approximationsBox");
          last = !b->isChecked();
          b->setChecked(last);
        } else {
          auto* b = find<QAbstractButton>(dialog, n.c_str());
          if (!b->isEnabled()) return;  // The box of approximations is off.
          b->click();
          last = b->isChecked();
        }
      }
      ++g_transitions;
      core::Settings got = dialog.settings();
      g_seen.insert(text(got));
      if (word.empty()) {
        ++g_shown;
        expect(where, "unchanged settings", text(got), text(init));
      }
      expect(where, "the settings without widgets", hidden(got), hidden(init));
      expect(where, "the order", std::to_string(got.limit_order()), std::to_string(order ? 7 : init.limit_order()));
      expect(where, "the mission time", num(got.mission_time()), num(time ? 12 : init.mission_time()));
      // What is on display is what there is.
      auto on = [&](const char* n) { return find<QAbstractButton>(dialog, n)->isChecked(); };
      bool approximations = find<QGroupBox>(dialog, "approximationsBox")->isChecked();
      using A = core::Algorithm;
      using X = core::Approximation;
      A a = on("bdd") ? A::kBdd : on("zbdd") ? A::kZbdd : A::kMocus;
      X x = !approximations ? X::kNone : on("rareEvent") ? X::kRareEvent : X::kMcub;
      if (on("bdd") + on("zbdd") + on("mocus") != 1 || on("rareEvent") + on("mcub") != 1)
        bad(where, "not exactly one choice is on display");
      if (got.algorithm() != a || got.approximation() != x || got.prime_implicants() != on("primeImplicants") ||
          got.importance_analysis() != on("importance") ||
          got.probability_analysis() !=
              (on("probability") || init.uncertainty_analysis() || init.safety_integrity_levels()))
        bad(where, "the settings are not what is on display: " + text(got));
      if (on("primeImplicants") && (a != A::kBdd || x != X::kNone)) bad(where, "prime implicants with " + text(got));
      if (a != A::kBdd && x == X::kNone) bad(where, "no approximation without BDD");
      if (on("importance") && !on("probability")) bad(where, "importance without probability");
      if (!word.empty()) {
        // The last click is not undone by its consequences.
        string n = kClicks[word.back()].widget;
        if (n[0] != 'o' && n[0] != 't') {
          bool now = n == "approximationsBox" ? approximations : on(n.c_str());
          if (now != last || (kClicks[word.back()].radio && !now)) bad(where, "the last click has no effect");
        }
      }
      if ((int)word.size() == depth) return;
      for (size_t i = 0; i < std::size(kClicks); ++i) {
        word.push_back(i);
        go(word);
        word.pop_back();
      }
    };
    std::vector<int> word;
    go(word);
  }
}

int main(int argc, char** argv) {
  qInstallMessageHandler(on_message);
  QApplication app(argc, argv);
  string mode = argv[1];
  if (mode == "show") show(argv[2]);
  if (mode == "event" || mode == "window")
    events(argv[2], std::atoi(argv[3]), std::atoi(argv[4]), std::atoi(argv[5]), std::atoi(argv[6]), mode == "window");
  if (mode == "settings") settings(std::atoi(argv[2]), std::atoi(argv[3]), std::atoi(argv[4]));
  std::printf("N states %zu\nN transitions %ld\nN shown %ld\n", g_seen.size(), g_transitions, g_shown);
  std::fflush(stdout);
  std::_Exit(0);
}
