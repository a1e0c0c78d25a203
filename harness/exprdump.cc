// Loads MEF files one after another and prints the value and interval of every parameter.
// usage: exprdump MISSION-TIME LIST-OF-FILES
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>

#include "src/error.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/parameter.h"
#include "src/settings.h"

int main(int argc, char** argv) {
  using namespace scram;
  core::Settings settings;
  settings.probability_analysis(true);
  settings.mission_time(std::stod(argv[1]));
  std::ifstream list(argv[2]);
  std::string path;
  while (std::getline(list, path)) {
    std::printf("F %s\n", path.c_str());
    std::fflush(stdout);
    try {
      std::unique_ptr<mef::Model> model =
          mef::Initializer({path}, settings, true).model();
      for (mef::Parameter& p : model->table<mef::Parameter>()) {
        mef::Interval i = p.interval();
        std::printf("P %s %.17g %.17g %.17g %d\n", p.name().c_str(), p.value(),
                    i.lower(), i.upper(), static_cast<int>(p.IsDeviate()));
      }
      std::printf("OK\n");
    } catch (const scram::Error& err) {
      std::string what = err.what();
      for (char& c : what)
        if (c == '\n')
          c = ' ';
      std::printf("ERR %s\n", what.c_str());
    }
    std::fflush(stdout);
  }
  std::printf("END\n");
  return 0;
}
