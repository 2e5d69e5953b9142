// C16: the data logger writes exactly the lines it was given, at most at its rate.
#include "mc.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "infrastructure/data_logger.hpp"

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C16");
  struct Op {std::string n; char k; double v;};
  const std::vector<Op> ops = {
    {"log", 'L', 0}, {"rl+0", 'R', 0}, {"rl+.05", 'R', 0.0625}, {"rl+.4", 'R', 0.375}, {"rl+3", 'R', 3}, {"rl-1", 'R', -1},
    {"on", 'E', 0}, {"rate4", 'S', 4}, {"rate0", 'S', 0}, {"header", 'H', 0}, {"file", 'F', 0}};
  const unsigned depth = R.thorough ? 6 : 5;
  R.rule = "all words of length d over logger operations (plain and rate-limited messages at equal, later and earlier times, enabling, "
    "rate, header and file changes) for five start configurations (two with a log of an earlier run under the same name); the files in the output directory are compared with a reference "
    "log after every word; plus all periodic words over a longer horizon";
  R.Bound("alphabet", ops.size()); R.Bound("depth", depth);
  R.assumptions = {"local file system"};
  const std::string base = R.scratch;
  struct Start {std::string n; double t0; bool on; double rate;};
  const std::vector<Start> starts = {{"t0", 0, true, 2}, {"t7", 7, true, 2}, {"t-3", -3, true, 0.5}, {"off", 0, false, 0}, {"off4", 0, false, 4}};
  auto read = [](const std::string & f) {std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str();};
  auto exists = [](const std::string & f) {struct stat st; return ::stat(f.c_str(), &st) == 0;};
  auto run = [&](const Start & st, const std::vector<unsigned> & w, unsigned steps, mc::Ctx & c) {
      std::string key = st.n + ":";
      for (auto x : w) {key += " " + ops[x].n;}
      if (steps != w.size()) {key += " *" + std::to_string(steps);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      const std::string dir = base + "/w" + std::to_string(::getpid()) + "/";
      ::mkdir(dir.c_str(), 0700);
      const std::string names[2] = {"a.csv", "b.csv"};
      for (auto & f : names) {::unlink((dir + f).c_str());}
      // an earlier run of the program left a log under the same name
      const bool old = st.n == "t7" || st.n == "off4";
      const std::string before = "h0,x\nan older and much longer line that is not of this run\n";
      if (old) {for (auto & f : names) {std::ofstream(dir + f) << before;}}
      std::string want, header = "h0,x"; int file = 0, openfile = -1;
      bool on = st.on, have = false; double rate = st.rate, first = 0, t = st.t0; unsigned count = 0, id = 0, sinceFirst = 0;
      {
        DataLogger log(dir, names[0], st.rate);
        log.DefineHeader(header);
        if (st.on) {log.EnableLogging();}
        for (unsigned k = 0; k < steps; ++k) {
          const Op & o = ops[w[k % w.size()]];
          c.Transition();
          std::string m = "line" + std::to_string(id++) + ",\"" + o.n;
          auto put = [&] {
              if (openfile < 0) {openfile = file; want = header + "\n";}
              want += m + "\n"; ++count;
            };
          switch (o.k) {
            case 'L': log.Log(m); if (on) {put();} break;
            case 'R':
              t += o.v; log.RateLimitedLog(m, t);
              if (on) {
                if (!have) {have = true; first = t; put();} else if (rate == 0 || count < rate * (t - first)) {put();}
              }
              break;
            case 'E': log.EnableLogging(); on = true; break;
            case 'S': log.SetLogRate(o.v); rate = o.v; break;
            case 'H': header = "h" + std::to_string(k) + ",y"; log.DefineHeader(header); break;
            default: file = 1 - file; log.SetOutputFileName(names[file]); break;
          }
          (void)sinceFirst;
          // what is on disk is complete after every call
          c.Eval();
          c.State(mc::Hash().u(count).u(on).u(have).d(rate).d(t - first).u(static_cast<unsigned>(openfile + 1)).h);
          for (int f = 0; f < 2; ++f) {
            if (f != openfile) {
              if (old ? read(dir + names[f]) != before : exists(dir + names[f])) {c.Fail("after step " + std::to_string(k) + " " + o.n + ": a log file appeared or changed without anything logged to it"); return;}
            } else {
              std::string got = read(dir + names[f]);
              if (got != want) {c.Fail("after step " + std::to_string(k) + " " + o.n + ": log contents differ from the lines due:\n" + got + "--- instead of\n" + want); return;}
            }
          }
        }
      }
      c.Count("lines", count);
      c.Trace(); c.Sample(key);
    };
  const unsigned n = static_cast<unsigned>(ops.size());
  auto word = [](uint64_t code, unsigned a, unsigned len) {std::vector<unsigned> w(len); for (auto & x : w) {x = static_cast<unsigned>(code % a); code /= a;} return w;};
  auto pw = [](uint64_t a, unsigned e) {uint64_t r = 1; while (e--) {r *= a;} return r;};
  for (auto & st : starts) {
    unsigned d = !st.on ? depth - 1 : depth;
    R.Parallel(pw(n, d), [&](size_t i, mc::Ctx & c) {run(st, word(i, n, d), d, c);});
    R.Parallel(pw(n, 3), [&](size_t i, mc::Ctx & c) {run(st, word(i, n, 3), 24, c);});
  }
  return R.Finish();
}
