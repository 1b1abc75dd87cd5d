// Preprocessors through their factory and wrapper.  name clusters iterations epsilon
// lambda data ; the output files are read back as well.
#include "drv.hpp"
#include <fstream>
#include <sys/stat.h>
using namespace std;
#include "preprocessor.hpp"
#include "readInput.hpp"

void runCase(istringstream &in) {
  string name, k, z, e, l; in >> name >> k >> z >> e >> l; auto d = readMat(in);
  string dir = "pre" + to_string(getpid()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) { Ev("badop").emit(); return; } mkdir("output", 0700);
  map<string, string> cfg = {{"debug", "0"}, {"outputFile", "/dev/null"}, {"clusters", k}, {"iterations", z}, {"epsilon", e},
                             {"lambda", l}, {"dimensions", "1"}, {"complexType", "simplexTree"}, {"twist", "false"}, {"collapse", "false"}};
  pipePacket p(cfg, "simplexTree"); p.originalData = d; p.fullData = d;
  preprocessor f; auto *pp = f.newPreprocessor(name);
  if (!pp || !pp->configPreprocessor(cfg)) { Ev("refused").emit(); return; }
  if (d.size() % 3 == 1) {       // the component has been at work before, on other data
    pipePacket q(cfg, "simplexTree"); q.originalData.assign(d.rbegin(), d.rend() - d.size() / 2); q.fullData = q.originalData; pp->runPreprocessorWrapper(q); }
  pipePacket r = pp->runPreprocessorWrapper(p);
  bool full = r.fullData == d && p.originalData == d;
  string proc = name == "kmeans++" ? "k-means++" : "DenStream";
  readInput ri; auto cf = ri.readCSV("output/" + proc + "_centroid_output.csv"); vector<string> lf;
  { ifstream s("output/" + proc + "_label_output.csv"); string x; while (getline(s, x)) lf.push_back(x); }
  bool files = cf.size() == r.originalData.size() && lf.size() == r.originalLabels.size();
  for (size_t i = 0; files && i < cf.size(); i++) { if (cf[i].size() != r.originalData[i].size()) files = false;
    for (size_t j = 0; files && j < cf[i].size(); j++) if (!(fabs(cf[i][j] - r.originalData[i][j]) < 1e-5)) files = false; }
  for (size_t i = 0; files && i < lf.size(); i++) if (lf[i] != to_string(r.originalLabels[i])) files = false;
  Ev("result").f("c", r.originalData).f("l", r.originalLabels).f("full", full).f("files", files).f("stats", r.stats).emit();
}
