// Storages: histories of public operations on one simplicial complex object.
#include "pipePacket.hpp"
#include "basePipe.hpp"
#include "simplexBase.hpp"
#include "drv.hpp"
using namespace std;

static vector<pair<vector<unsigned>, double>> flat(const vector<vector<pair<set<unsigned>, double>>> &e) {
  vector<pair<vector<unsigned>, double>> r;
  for (auto &d : e) for (auto &s : d) r.push_back({vector<unsigned>(s.first.begin(), s.first.end()), s.second});
  return r;
}

// another storage of the same kind lives beside the one observed and goes through a history of its own
struct Other {
  simplexBase *c; double eps; int dim; unsigned at = 0;
  void step() {
    switch (at++ % 7) {
      case 0: { vector<vector<double>> m(4, vector<double>(4, 0)); for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) m[i][j] = eps / 2 + j / 16.0;
                c->setDistanceMatrix(m); break; }
      case 4: c->expandDimensions(dim); break;
      case 5: c->getAllEdges(eps); c->simplexCount(); break;
      case 6: c->clear(); break;
      default: { vector<double> v = {1.0}; c->insert(v); } }
  }
};

// type eps dim op...   op: M n row.. | I v.. | X d | Q | D d eps | F v.. | S v.. | C | R | P | G
void runCase(istringstream &in) {
  string type; double eps; int dim;
  in >> type >> eps >> dim;
  map<string, string> cfg = {{"debug", "0"}, {"outputFile", "/dev/null"}, {"dimensions", to_string(dim)},
                             {"epsilon", jnum(eps)}, {"twist", "false"}, {"collapse", "false"}, {"complexType", type}};
  pipePacket *packet = new pipePacket(cfg, type);
  simplexBase *c = packet->complex;
  pipePacket *beside = new pipePacket(cfg, type);
  Other other{beside->complex, eps, dim};
  string op;
  while (in >> op) {
    other.step();
    if (op == "M") { auto m = readMat(in); c->setDistanceMatrix(m); Ev("matrix").f("n", m.size()).emit(); }
    else if (op == "I") { auto v = readVec(in); c->insert(v); Ev("insert").emit(); }
    else if (op == "X") { int d; in >> d; c->expandDimensions(d); Ev("expand").f("d", d).emit(); }
    else if (op == "Q") {
      auto e = c->getAllEdges(eps);
      vector<int> sizes; bool pure = true, sorted = true;
      for (size_t d = 0; d < e.size(); d++) { sizes.push_back(e[d].size());
        for (size_t i = 0; i < e[d].size(); i++) { if (e[d][i].first.size() != d + 1) pure = false;
          if (i && e[d][i].second < e[d][i - 1].second) sorted = false; } }
      Ev("query").f("simplices", flat(e)).f("pure", pure).f("sorted", sorted)
        .f("count", c->simplexCount()).f("vertices", c->vertexCount()).emit();
    }
    else if (op == "N") { Ev("counts").f("count", c->simplexCount()).f("vertices", c->vertexCount()).emit(); }
    else if (op == "D") { int d; double x; in >> d >> x; auto r = c->getDimEdges(d, x);
      for (auto &s : r) sort(s.begin(), s.end());
      Ev("dim").f("d", d).f("eps", x).f("simplices", r).emit(); }
    else if (op == "F") { auto v = readUV(in); Ev("find").f("s", v).f("found", c->find(v)).emit(); }
    else if (op == "S") { auto v = readUV(in); Ev("find").f("s", v).f("found", c->find(set<unsigned>(v.begin(), v.end()))).emit(); }
    else if (op == "G") { auto g = c->getIndexEdges(eps); vector<pair<vector<unsigned>, double>> r;
      for (auto &d : g) for (auto &s : d) r.push_back({vector<unsigned>(s.simplexSet.begin(), s.simplexSet.end()), s.weight});
      Ev("index").f("simplices", r).f("count", c->simplexCount()).f("vertices", c->vertexCount()).emit(); }
    else if (op == "C") { c->clear(); Ev("clear").emit(); }
    else if (op == "R") { c->reduceComplex(); Ev("reduce").emit(); }
    else { Ev("badop").f("op", op).emit(); return; }
  }
}
