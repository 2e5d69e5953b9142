// C18: debug messages appear exactly when their level is enabled.
#include "mc.hpp"
#include <iostream>
#include "infrastructure/debug_logger.hpp"

int main(int argc, char ** argv)
{
  mc::Runner R(argc, argv, "C18");
  const unsigned depth = R.thorough ? 5 : 4;
  R.rule = "all words of length d over messages of every level and level changes (by name and by number), for every initial level; standard "
    "output and error are compared with the reference after every call";
  const std::vector<LogLevel> lv = {LogLevel::FATAL, LogLevel::ERROR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG};
  const char * names[] = {"FATAL", "ERROR", "WARN", "INFO", "DEBUG"};
  const unsigned n = 15;
  R.Bound("alphabet", n); R.Bound("depth", depth);
  uint64_t total = 1;
  for (unsigned k = 0; k < depth; ++k) {total *= n;}
  R.Parallel(total, [&](size_t code, mc::Ctx & c) {
      std::vector<unsigned> w(depth); std::string key; size_t q = code;
      for (auto & x : w) {x = static_cast<unsigned>(q % n); q /= n; key += (x < 5 ? " log" : x < 10 ? " set" : " num") + std::to_string(x % 5);}
      if (!R.Selected(key)) {return;}
      c.Key(key);
      for (unsigned start = 0; start < 10; ++start) {
        std::ostringstream out, err;
        auto * o = std::cout.rdbuf(out.rdbuf()); auto * e = std::cerr.rdbuf(err.rdbuf());
        std::string bad;
        {
          DebugLogger log = start < 5 ? DebugLogger(lv[start], "") : DebugLogger(start % 5, "");
          unsigned level = start % 5;
          for (unsigned k = 0; k < depth && bad.empty(); ++k) {
            out.str(""); err.str("");
            unsigned l = w[k] % 5;
            c.Transition(); c.Eval();
            if (w[k] < 5) {
              std::string m = "msg " + std::to_string(k) + " [x]";
              log.Log(lv[l], m);
              bool due = l <= level, std_out = l >= 3;
              std::string text = out.str() + err.str();
              bool once = text.find(m) != std::string::npos && text.find(m) == text.rfind(m) && text.find(names[l]) != std::string::npos && text.back() == '\n';
              if (due ? !(once && (std_out ? err.str().empty() : out.str().empty())) : !text.empty()) {
                bad = "message of level " + std::string(names[l]) + " at log level " + names[level] + ": output \"" + out.str() + "\", error output \"" + err.str() + "\"";
              }
            } else {
              if (w[k] < 10) {log.SetLogLevel(lv[l]);} else {log.SetLogLevel(l);}
              level = l;
              if (!err.str().empty()) {bad = "changing the level writes to the error output";}
            }
            c.State(mc::Hash().u(level).u(w[k]).h);
          }
        }
        std::cout.rdbuf(o); std::cerr.rdbuf(e);
        c.Check(bad.empty(), bad);
        c.Trace();
      }
      c.Sample(key);
    });
  return R.Finish();
}
