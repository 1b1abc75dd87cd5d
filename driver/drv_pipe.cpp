// Pipelines: a point cloud (or an injected distance matrix) through the pipe stages.
#include "pipePacket.hpp"
#include "basePipe.hpp"
#include "simplexBase.hpp"
#include "drv.hpp"
using namespace std;

static void listing(simplexBase *c, double eps) {
  auto e = c->getAllEdges(eps);
  vector<pair<vector<unsigned>, double>> r; bool pure = true, sorted = true;
  for (size_t d = 0; d < e.size(); d++)
    for (size_t i = 0; i < e[d].size(); i++) {
      r.push_back({vector<unsigned>(e[d][i].first.begin(), e[d][i].first.end()), e[d][i].second});
      if (e[d][i].first.size() != d + 1) pure = false;
      if (i && e[d][i].second < e[d][i - 1].second) sorted = false; }
  Ev("list").f("s", r).f("pure", pure).f("sorted", sorted).f("count", c->simplexCount()).f("vertices", c->vertexCount()).emit();
}
static void result(pipePacket &p) {
  Ev("bars").f("text", p.bettiOutput).emit();
  vector<pair<vector<double>, vector<unsigned>>> t;
  for (auto &b : p.bettiTable) t.push_back({{(double)b.bettiDim, b.birth, b.death}, vector<unsigned>(b.boundaryPoints.begin(), b.boundaryPoints.end())});
  Ev("table").f("t", t).emit();
}

// type eps dim stage.stage...  (P n vec.. | M n vec.. ) opts
//   P: data go through the named stages, observing after every stage
//   M: the matrix is injected and one dummy point per row inserted before the stages run
void runCase(istringstream &in) {
  string type, stages, mode; double eps; int dim;
  in >> type >> eps >> dim >> stages >> mode;
  auto data = readMat(in);
  string opt; bool quiet = false;
  while (in >> opt) if (opt == "quiet") quiet = true;
  char es[64]; snprintf(es, 64, "%.17g", eps);
  map<string, string> cfg = {{"debug", "0"}, {"outputFile", "/dev/null"}, {"dimensions", to_string(dim)}, {"epsilon", es},
                             {"twist", "false"}, {"collapse", "false"}, {"complexType", type}, {"inputFile", "None"}};
  map<string, basePipe *> used;
  if (mode == "P" && data.size() % 4 == 1 && data.size() < 20) {    // another run of the same components, on half of the data
    pipePacket q(cfg, type); q.originalData.assign(data.begin() + data.size() / 2, data.end()); q.fullData = q.originalData;
    stringstream ss(stages); string st;
    while (getline(ss, st, '.')) { basePipe bp; basePipe *pipe = bp.newPipe(st, type); if (pipe && pipe->configPipe(cfg)) q = pipe->runPipeWrapper(q); used[st] = pipe; }
  }
  pipePacket p(cfg, type);
  if (mode == "M") {
    p.complex->setDistanceMatrix(data);
    for (size_t i = 0; i < data.size(); i++) { vector<double> v = {1.0}; p.complex->insert(v); }
    Ev("inserted").f("n", data.size()).emit();
  } else { p.originalData = data; p.fullData = data; }
  stringstream ss(stages); string st;
  while (getline(ss, st, '.')) {
    basePipe bp; basePipe *pipe = used.count(st) ? used[st] : bp.newPipe(st, type);
    if (!pipe) { Ev("nopipe").f("stage", st).emit(); return; }
    if (!pipe->configPipe(cfg)) { Ev("noconfig").f("stage", st).emit(); return; }
    p = pipe->runPipeWrapper(p);
    Ev("stage").f("name", st).emit();
    if (st == "distMatrix" && !quiet) Ev("dist").f("m", p.complex->distMatrix).f("w", vector<double>(p.weights.begin(), p.weights.end())).emit();
    if (st == "neighGraph" && !quiet) Ev("nbr").f("vertices", p.complex->vertexCount()).f("count", p.complex->simplexCount()).emit();
    if (st == "rips" && !quiet) listing(p.complex, eps);
    if (st == "fastPersistence" || st == "fast" || st == "persistence") result(p);
  }
  Ev("end").f("stats", p.stats).emit();
}
