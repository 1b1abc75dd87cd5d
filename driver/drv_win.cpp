// SLIDE w eps dim stride stream | NAIVE 50 eps dim stride stream: the window stages on every
// stride-th prefix of the stream (and the whole of it).
// REPORT w eps dim debug stream: the sliding window over the whole stream, with the reports it leaves.
#include "drv.hpp"
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
using namespace std;
#include "pipePacket.hpp"
#include "basePipe.hpp"
#include "slidingWindow.hpp"
#include "naiveWindow.hpp"

static string slurp(const string &f) { ifstream i(f); stringstream o; o << i.rdbuf(); return o.str(); }
static vector<pair<string, string>> artifacts() {
  vector<pair<string, string>> r; set<string> names;
  if (DIR *d = opendir("output")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') names.insert(e->d_name); closedir(d); }
  for (auto &n : names) if (n != "tArray.csv" && n != "complexStats.csv") r.push_back({n, slurp("output/" + n)});
  return r;
}

static void clearArtifacts() { for (auto &a : artifacts()) unlink(("output/" + a.first).c_str()); }

template <class M> static vector<pair<int, double>> pairs(const M &m) { vector<pair<int, double>> r; for (auto &x : m) r.push_back({x.first, (double)x.second}); return r; }

void runCase(istringstream &in) {
  string op, eps; int w, dim; size_t stride; in >> op >> w >> eps >> dim >> stride; auto st = readMat(in);
  string dir = "win" + to_string(getpid()); mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) { Ev("badop").emit(); return; } mkdir("output", 0700);
  map<string, string> cfg = {{"debug", "0"}, {"outputFile", "/dev/null"}, {"epsilon", eps}, {"dimensions", to_string(dim)}, {"fn", ""},
                             {"complexType", "simplexTree"}, {"inputFile", "stream.csv"}, {"twist", "false"}, {"collapse", "false"}};
  bool report = op == "REPORT", slide = op == "SLIDE" || report;
  if (report) { cfg["debug"] = stride ? "1" : "0"; stride = w > 50 ? 50 : 12; }
  for (size_t k = 0; k <= st.size(); k++) {
    if (k % stride && k != st.size()) continue;
    { ofstream o("stream.csv"); for (size_t i = 0; i < k; i++) { for (size_t j = 0; j < st[i].size(); j++) o << (j ? "," : "") << jnum(st[i][j]); o << "\n"; } }
    if (slide) slidingWindow::defaultVals->windowMaxSize = w;      // every run starts with an empty window
    pipePacket p(cfg, "simplexTree");
    basePipe bp; basePipe *pipe = bp.newPipe(slide ? "slidingwindow" : "naivewindow", "simplexTree");
    if (!pipe || !pipe->configPipe(cfg)) { Ev("refused").emit(); return; }
    pipePacket r = pipe->runPipe(p);
    if (report) { auto &v = *slidingWindow::defaultVals; Ev("labels").f("k", k).f("keys", v.windowKeys).f("labels", v.partitionLabels).emit();
      if (k == st.size()) Ev("reports").f("k", k).f("data", r.originalData).f("files", artifacts()).emit();
      else clearArtifacts();
      continue; }
    Ev e("state"); e.f("k", k).f("data", r.originalData);
    vector<pair<vector<unsigned>, double>> l;
    for (auto &d : r.complex->getAllEdges(atof(eps.c_str()))) for (auto &s : d) l.push_back({vector<unsigned>(s.first.begin(), s.first.end()), s.second});
    e.f("s", l).f("count", r.complex->simplexCount()).f("vertices", r.complex->vertexCount()).f("dist", r.complex->distMatrix);
    if (slide) { auto &v = *slidingWindow::defaultVals;
      e.f("keys", v.windowKeys).f("labels", v.partitionLabels).f("nni", v.nnIndices).f("nnd", v.nnDists)
       .f("avg", pairs(v.avgNNDistPartitions)).f("num", pairs(v.numPointsPartn)).f("max", pairs(v.maxKeys)); }
    e.emit();
  }
}
