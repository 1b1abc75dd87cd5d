// The stage factory, configuration and wrapper, and the preprocessors likewise.
// storage debug eps dim data nops op...
//   S:name (storage factory)  B:name C:opt,opt R (pipeline)  p:name c:opt,opt r (preprocessor)
#include "drv.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include "pipePacket.hpp"
#include "basePipe.hpp"
#include "distMatrixPipe.hpp"
#include "neighGraphPipe.hpp"
#include "ripsPipe.hpp"
#include "upscalePipe.hpp"
#include "boundaryPipe.hpp"
#include "persistencePairs.hpp"
#include "optPersistencePairs.hpp"
#include "slidingWindow.hpp"
#include "fastPersistence.hpp"
#include "naiveWindow.hpp"
#include "preprocessor.hpp"
#include "kMeansPlusPlus.hpp"
#include "streamingKmeans.hpp"
#include "denStream.hpp"
#include "simplexTree.hpp"
#include "simplexArrayList.hpp"
#include "indSimplexTree.hpp"
using namespace std;

template <class T, class B> static bool is(B *p) { return dynamic_cast<T *>(p) != nullptr; }
static string compOf(basePipe *p) {
  return !p ? "none" : is<distMatrixPipe>(p) ? "distMatrix" : is<neighGraphPipe>(p) ? "neighGraph" : is<ripsPipe>(p) ? "rips" :
    is<upscalePipe>(p) ? "upscale" : is<boundaryPipe>(p) ? "boundary" : is<persistencePairs>(p) ? "pairs" : is<optPersistencePairs>(p) ? "optPairs" :
    is<slidingWindow>(p) ? "sliding" : is<fastPersistence>(p) ? "fast" : is<naiveWindow>(p) ? "naive" : "other"; }
static string compOf(preprocessor *p) {
  return !p ? "none" : is<kMeansPlusPlus>(p) ? "kmeans" : is<streamingKmeans>(p) ? "streamKM" : is<denStream>(p) ? "denStream" : "base"; }
static string compOf(simplexBase *p) {
  return !p ? "none" : is<indSimplexTree>(p) ? "indSimplexTree" : is<simplexTree>(p) ? "simplexTree" : is<simplexArrayList>(p) ? "simplexArrayList" : "other"; }

// the files written in the output folder and the log. A file read is given back to the next
// run as a file of an earlier one: the run has to replace its content, not add to it.
static const string STALE = "stale\n";
static void makeStale(const string &f) { ofstream o("output/" + f); o << STALE; }
static string slurp(const string &f) { ifstream i(f); stringstream o; o << i.rdbuf(); return o.str(); }
static vector<pair<string, string>> artifacts() {
  vector<pair<string, string>> r; set<string> names;
  if (DIR *d = opendir("output")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') names.insert(e->d_name); closedir(d); }
  for (auto &n : names) { string t = slurp("output/" + n); if (t != STALE) { r.push_back({n, t}); makeStale(n); } }
  return r;
}

static void observe(const string &what, pipePacket &p, const vector<vector<double>> &data, double eps) {
  Ev e(what);
  e.f("data", p.originalData == data).f("full", p.fullData == data).f("points", p.originalData.size()).f("labels", p.originalLabels.size());
  e.f("dist", p.complex->distMatrix).f("w", vector<double>(p.weights.begin(), p.weights.end()));
  auto ed = p.complex->getAllEdges(eps); vector<pair<vector<unsigned>, double>> r;
  for (auto &d : ed) for (auto &s : d) r.push_back({vector<unsigned>(s.first.begin(), s.first.end()), s.second});
  e.f("s", r).f("count", p.complex->simplexCount()).f("vertices", p.complex->vertexCount()).f("text", p.bettiOutput);
  vector<vector<double>> t;
  for (auto &b : p.bettiTable) t.push_back({(double)b.bettiDim, b.birth, b.death});
  e.f("t", t).f("stats", p.stats);
  if (getenv("STAGE_FILES")) e.f("files", artifacts()).f("log", slurp("log")).f("out", p.originalData).f("lab", p.originalLabels);
  e.emit();
}

void runCase(istringstream &in) {
  string kind, dbg; double eps; int dim; in >> kind;
  if (kind == "files") { setenv("STAGE_FILES", "1", 1); in >> kind; }
  in >> dbg >> eps >> dim;
  auto data = readMat(in); int n; in >> n;
  string dir = "stg" + to_string(getpid()); mkdir(dir.c_str(), 0700);
  if (chdir(dir.c_str())) { Ev("badop").emit(); return; }
  mkdir("output", 0700);
  if (getenv("STAGE_FILES")) for (auto f : {"DistMatrix", "neighGraph", "ripsPipe", "FastPersistence_bettis", "PersistencePairs_bettis", "Upscale"})
    if (n % 2) makeStale(string(f) + "_output.csv");
  char es[64]; snprintf(es, 64, "%.17g", eps);
  map<string, string> all = {{"epsilon", es}, {"dimensions", to_string(dim)}, {"twist", "false"}, {"collapse", "false"},
                             {"clusters", "2"}, {"iterations", "20"}, {"lambda", "1"}};
  map<string, string> base = {{"debug", dbg}, {"outputFile", "log"}, {"complexType", kind}, {"inputFile", "None"}};
  map<string, string> cfg = all; cfg.insert(base.begin(), base.end());
  pipePacket p(cfg, kind); p.originalData = data; p.fullData = data;
  basePipe *pipe = 0; preprocessor *pre = 0;
  for (int i = 0; i < n; i++) {
    string op; in >> op; char k = op[0]; string a = op.substr(min<size_t>(2, op.size()));
    auto pick = [&]() { map<string, string> m = base; stringstream ss(a); string o; while (getline(ss, o, ',')) m[o] = all[o]; return m; };
    if (k == 'S') { simplexBase b(cfg); Ev("storage").f("name", a).f("got", compOf(b.newSimplex(a, cfg))).emit(); }
    else if (k == 'B') { basePipe f; pipe = f.newPipe(a, kind); Ev("build").f("name", a).f("got", compOf(pipe)).emit(); }
    else if (k == 'C') { bool r = pipe && pipe->configPipe(pick()); Ev("config").f("a", r).emit(); }
    else if (k == 'R') { if (pipe) p = pipe->runPipeWrapper(p); observe("run", p, data, eps); }
    else if (k == 'p') { preprocessor f; pre = f.newPreprocessor(a); Ev("pbuild").f("name", a).f("got", compOf(pre)).emit(); }
    else if (k == 'c') { bool r = pre && pre->configPreprocessor(pick()); Ev("pconfig").f("a", r).emit(); }
    else if (k == 'r') { if (pre) p = pre->runPreprocessorWrapper(p); observe("prun", p, data, eps); }
  }
  Ev("end").emit();
}
