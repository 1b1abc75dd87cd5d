// Argument parsing: PARSE n hex.. (arguments after the program name), PLAN (on the last
// map), GIVE k v .. (a map to plan from)
#include "drv.hpp"
using namespace std;
#include "argParser.hpp"

void runCase(istringstream &in) {
  argParser p; map<string, string> m; string op;
  while (in >> op) {
    if (op == "PARSE") { int n; in >> n; vector<string> a(n); for (auto &x : a) x = readHex(in);
      vector<vector<char>> buf; string self = "LHF"; buf.push_back(vector<char>(self.begin(), self.end())); buf.back().push_back(0);
      for (auto &x : a) { buf.push_back(vector<char>(x.begin(), x.end())); buf.back().push_back(0); }
      vector<char *> argv; for (auto &b : buf) argv.push_back(b.data()); argv.push_back(nullptr);
      vector<char *> argv0 = argv; auto buf0 = buf;
      m = p.parse(n + 1, argv.data()); Ev("parsed").f("m", m).f("same", argv == argv0 && buf == buf0).emit(); }
    else if (op == "PRINT") { p.printArguments(m); p.printUsage(); Ev("printed").f("m", m).emit(); }
    else if (op == "PLAN") { p.setPipeline(m); Ev("planned").f("m", m).emit(); }
    else if (op == "GIVE") { int n; in >> n; m.clear(); for (int i = 0; i < n; i++) { string k = readHex(in), v = readHex(in); m[k] = v; } Ev("given").f("m", m).emit(); }
    else { Ev("badop").emit(); return; }
  }
}
