// MICRO t dim lambda ops.. : I t point / Q t point.   DEN eps lambda stride init stream : the
// preprocessor on the initial points followed by every stride-th prefix of the stream.
#include "drv.hpp"
#include <fstream>
#include <sys/stat.h>
using namespace std;
#include "preprocessor.hpp"
#include "denStream.hpp"
#include "readInput.hpp"

void runCase(istringstream &in) {
  string op; in >> op;
  if (op == "MICRO") {
    int t, dim; double lam; in >> t >> dim >> lam;
    microCluster c(t, dim, lam);
    while (in >> op) {
      in >> t; auto x = readVec(in);
      if (op == "I") { c.insertPoint(x, t); Ev("ins").emit(); }
      else {
        double w = c.getWeight(t), r = c.getRadius(), m = c.mergeRadius(x, t); auto ce = c.getCenter();
        bool same = w == c.getWeight(t) && ce == c.getCenter() && (r == c.getRadius() || r != r) && (m == c.mergeRadius(x, t) || m != m);
        Ev("see").f("w", w).f("r", r).f("m", m).f("c", ce).f("born", c.getCreationTime()).f("same", same).emit();
      }
    }
    return;
  }
  string e, lam; size_t stride; in >> e >> lam >> stride; auto d = readMat(in), st = readMat(in);
  string dir = "den" + to_string(getpid()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) { Ev("badop").emit(); return; } mkdir("output", 0700);
  map<string, string> cfg = {{"debug", "0"}, {"outputFile", "/dev/null"}, {"epsilon", e}, {"lambda", lam}, {"clusters", "1"},
                             {"iterations", "1"}, {"dimensions", "1"}, {"complexType", "simplexTree"}};
  preprocessor f; preprocessor *one = nullptr;                       // every other recording uses one component throughout
  for (size_t k = 0; k <= st.size(); k++) {
    if (k) d.push_back(st[k - 1]);
    if (k % stride && k != st.size()) continue;
    pipePacket p(cfg, "simplexTree"); p.originalData = d; p.fullData = d;
    auto *pp = one && st.size() % 2 ? one : f.newPreprocessor("denStream");
    if (!pp || (pp != one && !pp->configPreprocessor(cfg))) { Ev("refused").emit(); return; }
    one = pp;
    pipePacket r = pp->runPreprocessorWrapper(p);
    readInput ri; auto cf = ri.readCSV("output/DenStream_centroid_output.csv");
    bool files = r.fullData == d && cf.size() == r.originalData.size();
    for (size_t i = 0; files && i < cf.size(); i++) { if (cf[i].size() != r.originalData[i].size()) files = false;
      for (size_t j = 0; files && j < cf[i].size(); j++) if (!(fabs(cf[i][j] - r.originalData[i][j]) < 1e-5)) files = false; }
    Ev(k ? "feed" : "init").f("k", k).f("c", r.originalData).f("files", files).emit();
  }
}
