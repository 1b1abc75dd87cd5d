// k-d tree and DBSCAN.  data size op...   op: RANGE q r | NEAR q | DB minPoints eps
#include "drv.hpp"
#include <limits>
using namespace std;
#include "kdTree.hpp"
#include "dbscan.hpp"

void runCase(istringstream &in) {
  auto d = readMat(in); int size; in >> size; kdTree *t = nullptr, *beside = nullptr; string op;
  while (in >> op) {
    if (op != "DB" && !t) { t = new kdTree(d, size); vector<vector<double>> b(d.rbegin(), d.rend() - d.size() / 3); if (b.size()) { beside = new kdTree(b, b.size()); beside->nearestIndex(b[0]); } }
    if (op == "RANGE") { auto q = readVec(in); double r; in >> r;
      Ev("range").f("idx", t->neighborhoodIndices(q, r)).f("pts", t->neighborhoodPoints(q, r)).f("both", t->neighborhood(q, r)).emit(); }
    else if (op == "NEAR") { auto q = readVec(in);
      Ev("near").f("idx", t->nearestIndex(q)).f("pt", t->nearestPoint(q)).f("pair", t->nearestPointIndex(q)).emit(); }
    else if (op == "DB") { int m; double e; in >> m >> e; auto d0 = d;
      auto l = dbscan::cluster(d, m, e, size); Ev("labels").f("l", l).f("same", d == d0).emit(); }
    else { Ev("badop").emit(); return; }
  }
}
