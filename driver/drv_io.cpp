// Readers and writers on files inside a directory of the case's own.
#include "drv.hpp"
#include <fstream>
using namespace std;
#include "readInput.hpp"
#include "writeOutput.hpp"
using namespace std;

static string slurp(const string &f, bool &there) {
  ifstream in(f, ios::binary); there = (bool)in; stringstream s; s << in.rdbuf(); return s.str(); }

// ops: FILE hex | CSV | STREAM | MAT | MISSING | W kind name payload | CONTENT file | RCSV file | RMAT file
void runCase(istringstream &in) {
  char dir[] = "ioXXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) { Ev("badop").emit(); return; }
  string op;
  while (in >> op) {
    if (op == "FILE") { string t = readHex(in); ofstream f("in.dat", ios::binary); f << t; f.close(); Ev("file").emit(); }
    else if (op == "CSV") { readInput r; Ev("csv").f("rows", r.readCSV("in.dat")).emit(); }
    else if (op == "MAT") { readInput r; Ev("mat").f("rows", r.readMAT("in.dat")).emit(); }
    else if (op == "STREAM") {
      readInput r; bool init = r.streamInit("in.dat"); vector<vector<double>> rows; vector<double> row;
      while (init && r.streamRead(row)) { rows.push_back(row); row.clear(); if (rows.size() > 2000) break; }
      bool again = init && r.streamRead(row);
      Ev("stream").f("init", init).f("rows", rows).f("ended", !again && row.empty()).emit(); }
    else if (op == "REUSE") {   // one reader for several files and ways of reading, and two readers at a time
      readInput r, q; bool a = r.streamInit("in.dat"); vector<double> row; vector<vector<double>> first, second, third;
      auto next = [&](readInput &x, vector<vector<double>> &to) { row.clear(); if (!x.streamRead(row)) return false; to.push_back(row); return to.size() < 2000; };
      bool one = a && next(r, first); Ev("csv").f("rows", r.readCSV("in.dat")).emit();
      bool b = q.streamInit("in.dat"), two = b, three;
      while (one || two) { if (one) one = next(r, first); if (two) two = next(q, second); }
      Ev("stream").f("init", a).f("rows", first).f("ended", row.empty()).emit(); Ev("stream").f("init", b).f("rows", second).f("ended", row.empty()).emit();
      bool c = r.streamInit("in.dat"); three = c; if (three) next(r, third); third.clear(); c = r.streamInit("in.dat");
      while (three) three = next(r, third);
      Ev("stream").f("init", c).f("rows", third).f("ended", row.empty()).emit(); }
    else if (op == "MISSING") {
      readInput r; vector<double> row; auto a = r.readCSV("no/such.csv"); auto b = r.readMAT("no/such.mat");
      bool i = r.streamInit("no/such.csv"); bool rd = r.streamRead(row);
      Ev("missing").f("csv", a).f("mat", b).f("init", i).f("read", rd).emit(); }
    else if (op == "W") {
      string kind, name; in >> kind >> name; writeOutput w; bool ret = false;
      if (kind == "csv") { auto m = readMat(in); ret = w.writeCSV(m, name); }
      else if (kind == "csvh") { auto h = readHex(in); auto m = readMat(in); ret = w.writeCSV(m, name, h); }
      else if (kind == "bar") { auto m = readMat(in); ret = w.writeBarcodes(m, name); }
      else if (kind == "mat") { auto m = readMat(in); ret = w.writeMAT(m, name); }
      else if (kind == "tcsv") { auto t = readHex(in); ret = w.writeCSV(t, name); }
      else if (kind == "tcsvh") { auto h = readHex(in); auto t = readHex(in); ret = w.writeCSV(t, name, h); }
      else if (kind == "tbar") { auto t = readHex(in); ret = w.writeBarcodes(t, name); }
      else if (kind == "stats") { auto t = readHex(in); ret = w.writeStats(t, name); }
      Ev("write").f("ret", ret).emit(); }
    else if (op == "CONTENT") { string f; in >> f; bool there; string t = slurp(f, there); Ev("content").f("there", there).f("text", t).emit(); }
    else if (op == "RCSV") { string f; in >> f; readInput r; Ev("readback").f("rows", r.readCSV(f)).emit(); }
    else if (op == "RMAT") { string f; in >> f; readInput r; Ev("readback").f("rows", r.readMAT(f)).emit(); }
    else { Ev("badop").f("op", op).emit(); return; }
  }
}
