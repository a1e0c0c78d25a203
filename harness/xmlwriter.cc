// Runs programs of writer operations on the XML stream and prints the outcome of each.
// input: one program per line: tokens
//   a<kind>:<hex> / t<kind>:<hex>  attribute / text on the current element
//   c  child, x  close the current element, e  child without a name, n  attribute without a name
//   A T C  attribute, text, child on the parent of the current element
//   r  another root element
// kinds: s string, p C string, i int, z size_t, d double, b bool (values in hex of their text)
// output: "<outcome per operation: . done, ! StreamError>|<hex of the document>".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "src/error.h"
#include "src/xml_stream.h"

using scram::xml::Stream;
using scram::xml::StreamElement;
using scram::xml::StreamError;

static std::vector<std::string> ops;
static std::size_t pos;
static int counter;
static std::string outcome;

static std::string unhex(const std::string& h) {
  std::string s;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2)
    s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return s;
}

template <class F>
static void put(char kind, const std::string& v, F f) {
  switch (kind) {
    case 's': f(v); break;
    case 'p': f(v.c_str()); break;
    case 'i': f(static_cast<int>(std::stol(v))); break;
    case 'z': f(static_cast<std::size_t>(std::stoull(v))); break;
    case 'd': f(std::strtod(v.c_str(), nullptr)); break;
    case 'b': f(v == "true"); break;
  }
}

template <class F>
static void attempt(F f) {
  try {
    f();
    outcome += '.';
  } catch (const StreamError&) {
    outcome += '!';
  }
}

static void level(StreamElement& e, StreamElement* parent, Stream& stream) {
  while (pos < ops.size()) {
    const std::string op = ops[pos++];
    std::string name = "n" + std::to_string(counter++);
    std::string value = op.size() > 3 ? unhex(op.substr(3)) : "";
    switch (op[0]) {
      case 'a':
        attempt([&] { put(op[1], value, [&](auto v) { e.SetAttribute(name.c_str(), v); }); });
        break;
      case 't':
        attempt([&] { put(op[1], value, [&](auto v) { e.AddText(v); }); });
        break;
      case 'n': attempt([&] { e.SetAttribute("", "v"); }); break;
      case 'e': attempt([&] { e.AddChild(""); }); break;
      case 'A': attempt([&] { parent->SetAttribute(name.c_str(), 1); }); break;
      case 'T': attempt([&] { parent->AddText("x"); }); break;
      case 'C': attempt([&] { parent->AddChild("bad"); }); break;
      case 'r': attempt([&] { stream.root("again"); }); break;
      case 'c': {
        bool entered = false;
        try {
          StreamElement child = e.AddChild(name.c_str());
          outcome += '.';
          entered = true;
          level(child, &e, stream);
        } catch (const StreamError&) {
          if (entered) throw;
          outcome += '!';
        }
        break;
      }
      case 'x':
        outcome += '.';
        return;
    }
  }
}

int main(int argc, char** argv) {
  bool indent = argc > 1 && !std::strcmp(argv[1], "indent");
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    ops.clear();
    for (std::string t; in >> t;) ops.push_back(t);
    pos = 0;
    counter = 0;
    outcome.clear();
    char* buf = nullptr;
    std::size_t size = 0;
    FILE* f = open_memstream(&buf, &size);
    {
      Stream stream(f, indent);
      StreamElement root = stream.root("root");
      level(root, nullptr, stream);
    }
    std::fclose(f);
    std::printf("%s|", outcome.c_str());
    for (std::size_t i = 0; i < size; ++i) std::printf("%02x", (unsigned char)buf[i]);
    std::printf("\n");
    std::free(buf);
  }
}
