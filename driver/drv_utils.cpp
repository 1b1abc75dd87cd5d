// Set helpers, partition helpers and GF(2) routines: one call per event, arguments are
// recorded again after the call.
#include "drv.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
using namespace std;
#include "pipePacket.hpp"
#include "basePipe.hpp"
#include "utils.hpp"
#include "persistencePairs.hpp"
#include "boundaryPipe.hpp"

static set<unsigned> asSet(const vector<unsigned> &v) { return set<unsigned>(v.begin(), v.end()); }
static vector<unsigned> asVec(const set<unsigned> &v) { return vector<unsigned>(v.begin(), v.end()); }
static vector<vector<unsigned>> readUM(istringstream &in) { int n; in >> n; vector<vector<unsigned>> m(n); for (auto &r : m) r = readUV(in); return m; }

void runCase(istringstream &in) {
  utils ut; string op;
  while (in >> op) {
    if (op == "SET") { // which sorted a b
      string w; int s; in >> w >> s; auto a = readUV(in), b = readUV(in); auto a0 = a, b0 = b; vector<unsigned> r, u;
      set<unsigned> x = asSet(a), y = asSet(b);
      if (w == "vint") r = ut.setIntersect(a, b, s);
      else if (w == "sint") r = asVec(ut.setIntersect(x, y, s));
      else if (w == "vdiff") r = ut.symmetricDiff(a, b, s);
      else if (w == "sdiff") r = ut.symmetricDiff(x, y, s);
      else if (w == "vuni") r = ut.setUnion(a, b, s);
      else if (w == "xor") r = asVec(ut.setXOR(x, y));
      else if (w == "pair") { auto p = ut.intersect(a, b, s); r = p.first; u = p.second; }
      else { Ev("badop").emit(); return; }
      Ev("set").f("w", w).f("r", r).f("u", u).f("same", a == a0 && b == b0 && x == asSet(a0) && y == asSet(b0)).emit(); }
    else if (op == "SUB") { // kind k a
      string w; int k; in >> w >> k; auto a = readUV(in); vector<vector<unsigned>> r;
      if (w == "s") for (auto &z : ut.getSubsets(asSet(a))) r.push_back(asVec(z));
      else if (w == "k") for (auto &z : ut.getSubsets(asSet(a), k)) r.push_back(asVec(z));
      else r = ut.getSubsets(a);
      Ev("sub").f("r", r).emit(); }
    else if (op == "RANK") { auto m = readUM(in); auto m0 = m; persistencePairs p; unsigned off; in >> off;
      auto r = p.getRankNull(m, off); Ev("rank").f("r", r).f("same", m == m0).emit(); }
    else if (op == "RED") { auto m = readUM(in); auto m0 = m; boundaryPipe p; auto r = p.reduceBoundaryMatrix(m);
      Ev("red").f("m", r.first).f("rank", r.second.first).f("nul", r.second.second).f("same", m == m0).emit(); }
    else if (op == "BND") { auto a = readUM(in), b = readUM(in); boundaryPipe p; auto r = p.boundaryMatrix(a, b);
      Ev("bnd").f("m", r.first).f("rank", r.second.first).f("nul", r.second.second).emit(); }
    else if (op == "FACE") { auto a = readUV(in), b = readUV(in); boundaryPipe p; persistencePairs q;
      Ev("face").f("b", p.checkFace(a, b)).f("p", q.checkFace(a, b)).f("s", q.checkFace(asSet(a), asSet(b))).emit(); }
    else if (op == "NSIM") { double e; unsigned n; in >> e >> n; int k; in >> k; vector<pair<double, vector<unsigned>>> c;
      for (int i = 0; i < k; i++) { double w; in >> w; auto v = readUV(in); c.push_back({w, v}); }
      boundaryPipe p; persistencePairs q; Ev("nsim").f("b", p.nSimplices(e, n, c)).f("p", q.nSimplices(e, n, c)).emit(); }
    else if (op == "SEP") { int k; in >> k; auto d = readMat(in); auto l = readUV(in); auto r = ut.separatePartitions(k, d, l);
      Ev("sep").f("idx", r.first).f("pts", r.second).emit(); }
    else if (op == "SEPR") { double rad; in >> rad; auto c = readMat(in), d = readMat(in); auto l = readUV(in); auto r = ut.separatePartitions(rad, c, d, l);
      Ev("sepr").f("idx", r.first).f("pts", r.second).emit(); }
    else if (op == "SEPB") { auto b = readUM(in); auto d = readMat(in); auto l = readUV(in); vector<set<unsigned>> bs; for (auto &x : b) bs.push_back(asSet(x));
      Ev("sepb").f("pts", ut.separateBoundaryPartitions(bs, d, l)).emit(); }
    else if (op == "RAD") { auto c = readMat(in), d = readMat(in); auto l = readUV(in);
      Ev("rad").f("r", ut.computeMaxRadius(c.size(), c, d, l)).emit(); }
    else if (op == "NN") { auto p = readVec(in); auto c = readMat(in); auto p0 = p; auto c0 = c; auto r = ut.nearestNeighbors(p, c);
      Ev("nn").f("r", r).f("same", p == p0 && c == c0).emit(); }
    else if (op == "MAP") { auto t = readUV(in); int n; in >> n; vector<bettiBoundaryTableEntry> b;
      for (int i = 0; i < n; i++) { unsigned d; double x, y; in >> d >> x >> y; auto v = readUV(in); b.push_back({d, x, y, asSet(v)}); }
      ut.mapPartitionIndexing(t, b); vector<vector<unsigned>> r; vector<vector<double>> k;
      for (auto &e : b) { r.push_back(asVec(e.boundaryPoints)); k.push_back({(double)e.bettiDim, e.birth, e.death}); }
      Ev("map").f("pts", r).f("key", k).emit(); }
    else if (op == "DIST") { auto a = readVec(in), b = readVec(in); Ev("vd").f("r", ut.vectors_distance(a, b)).emit(); }
    else if (op == "DIST1") { double a, b; in >> a >> b; Ev("vd1").f("r", ut.vectors_distance(a, b)).emit(); }
    else { Ev("badop").f("op", op).emit(); return; }
  }
}
