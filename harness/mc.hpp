// Bounded exhaustive exploration framework.
//
// A harness enumerates a finite, stated set of cases (configurations x operation
// sequences x inputs).  Cases are partitioned over worker processes; every case
// runs the real ekf_cal code and compares it with a reference model.  The
// framework counts distinct (hashed) model states, transitions and traces that
// were replayed against the implementation, records violations with a case key
// that can be replayed with --only KEY, and turns a crash of a worker into a
// violation of the case that was running.
#ifndef MC_HPP_
#define MC_HPP_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <chrono>

#include <eigen3/Eigen/Eigen>

namespace mc
{

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}

struct Hash
{
  uint64_t h{0x1234567};
  Hash & u(uint64_t v) {h = mix(h, v); return *this;}
  // values are rounded so that float noise does not create new states
  Hash & d(double v)
  {
    if (!std::isfinite(v)) {return u(0xdeadbeef);}
    if (v == 0.0) {return u(0);}
    int e; double m = std::frexp(v, &e);
    return u(static_cast<uint64_t>(std::llround(m * (1 << 20)))).u(static_cast<uint64_t>(e + 5000));
  }
  Hash & s(const std::string & str) {for (char c : str) {u(static_cast<unsigned char>(c));} return u(str.size());}
  template<class M> Hash & m(const M & a)
  {
    for (int i = 0; i < a.rows(); ++i) {for (int j = 0; j < a.cols(); ++j) {d(a(i, j));}}
    return u(a.rows());
  }
};

inline std::string jesc(const std::string & s)
{
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += c;}
    else if (c == '\n') {o += "\\n";}
    else if (static_cast<unsigned char>(c) < 32) {o += ' ';}
    else {o += c;}
  }
  return o;
}

struct Violation {std::string key; std::string what;};

class Ctx
{
public:
  std::string cur_key;
  uint64_t transitions{0}, traces{0}, evaluations{0};
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  char * shm{nullptr};
  size_t shm_len{0};
  std::string scratch;
  bool thorough{false};
  size_t max_violations{40};
  std::map<std::string, uint64_t> counters;
  uint64_t failed_cases{0};
  std::string last_fail_key;
  std::vector<std::string> known;      // keys (or prefixes*) of recorded findings
  std::set<std::string> known_seen;    // those already reported by this worker

  void Key(const std::string & k)
  {
    cur_key = k;
    if (shm) {
      size_t n = std::min(k.size(), shm_len - 1);
      memcpy(shm, k.data(), n);
      shm[n] = 0;
    }
  }
  void State(uint64_t h) {states.insert(h);}
  void Transition(uint64_t n = 1) {transitions += n;}
  void Trace() {++traces;}
  void Eval(uint64_t n = 1) {evaluations += n;}
  void Count(const std::string & c, uint64_t n = 1) {counters[c] += n;}
  void Sample(const std::string & s) {if (samples.size() < 3) {samples.push_back(s);}}
  // one violation per case key
  void Fail(const std::string & what)
  {
    if (last_fail_key == cur_key && !violations.empty()) {return;}
    last_fail_key = cur_key;
    for (auto & k : known) {   // a recorded finding never hides a new violation
      bool m = k.size() && k.back() == '*' ? cur_key.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0 : cur_key == k;
      if (m) {
        if (known_seen.insert(k).second) {violations.push_back({cur_key, what}); ++max_violations;}
        return;
      }
    }
    if (violations.size() < max_violations) {violations.push_back({cur_key, what});}
    ++failed_cases;
  }
  bool Check(bool ok, const std::string & what)
  {
    if (!ok) {Fail(what);}
    return ok;
  }
  bool Near(double a, double b, double tol, const std::string & what)
  {
    if (!(std::abs(a - b) <= tol)) {
      std::ostringstream o; o.precision(12);
      o << what << ": got " << a << " expected " << b << " tol " << tol;
      Fail(o.str());
      return false;
    }
    return true;
  }
  template<class A, class B>
  bool NearM(const A & a, const B & b, double tol, const std::string & what)
  {
    if (a.rows() != b.rows() || a.cols() != b.cols()) {
      std::ostringstream o;
      o << what << ": size " << a.rows() << "x" << a.cols() << " expected " << b.rows() << "x" << b.cols();
      Fail(o.str());
      return false;
    }
    for (int i = 0; i < a.rows(); ++i) {
      for (int j = 0; j < a.cols(); ++j) {
        if (!(std::abs(a(i, j) - b(i, j)) <= tol * (1.0 + std::abs(b(i, j))))) {
          std::ostringstream o; o.precision(12);
          o << what << "(" << i << "," << j << "): got " << a(i, j) << " expected " << b(i, j);
          Fail(o.str());
          return false;
        }
      }
    }
    return true;
  }
};

class Runner
{
public:
  std::string id, tier{"quick"}, only, scratch{"."}, verif{"/verif"};
  int seed{1};
  bool thorough{false};
  std::vector<std::pair<std::string, std::string>> bounds;
  std::vector<std::string> assumptions;
  std::string rule;
  uint64_t cases{0};
  Ctx total;
  std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
  std::string level{"model_checking"};
  unsigned workers{8};

  Runner(int argc, char ** argv, const std::string & pid)
  : id(pid)
  {
    if (getenv("VERIF_DIR")) {verif = getenv("VERIF_DIR");}
    for (int i = 1; i + 1 < argc; ++i) {
      std::string a = argv[i];
      if (a == "--tier") {tier = argv[i + 1];}
      if (a == "--seed") {seed = atoi(argv[i + 1]);}
      if (a == "--only") {only = argv[i + 1];}
      if (a == "--scratch") {scratch = argv[i + 1];}
    }
    thorough = (tier == "thorough");
    total.max_violations = 1000;
    long nc = sysconf(_SC_NPROCESSORS_ONLN);
    workers = static_cast<unsigned>(std::max(1L, std::min(8L, nc)));
    if (getenv("MC_WORKERS")) {workers = static_cast<unsigned>(atoi(getenv("MC_WORKERS")));}
  }
  void Bound(const std::string & k, const std::string & v) {bounds.push_back({k, v});}
  void Bound(const std::string & k, uint64_t v) {bounds.push_back({k, std::to_string(v)});}

  // Run cases 0..n-1 over worker processes
  void Parallel(size_t n, const std::function<void(size_t, Ctx &)> & fn)
  {
    cases += n;
    unsigned w = static_cast<unsigned>(std::min<size_t>(workers, std::max<size_t>(n, 1)));
    size_t shm_len = 1 << 16;
    std::vector<char *> shm(w);
    std::vector<pid_t> pid(w);
    std::vector<std::string> out(w);
    std::cout.flush(); std::cerr.flush(); fflush(nullptr);
    static int phase = 0; ++phase;
    for (unsigned k = 0; k < w; ++k) {
      shm[k] = static_cast<char *>(mmap(nullptr, shm_len, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      shm[k][0] = 0;
      out[k] = scratch + "/w" + std::to_string(phase) + "_" + std::to_string(k);
      pid[k] = fork();
      if (pid[k] == 0) {
        std::string sd = scratch + "/d" + std::to_string(phase) + "_" + std::to_string(k);
        mkdir(sd.c_str(), 0755);
        if (chdir(sd.c_str()) != 0) {_exit(90);}
        // the code under test may print: keep the report readable
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        if (!getenv("MC_STDERR")) {dup2(null, 2);}
        // a case that never ends is a violation (quick runs only)
        if (!thorough) {alarm(600);}
        Ctx c;
        for (auto & f : Known()) {c.known.push_back(f.first);}
        c.shm = shm[k]; c.shm_len = shm_len; c.scratch = sd; c.thorough = thorough;
        for (size_t i = k; i < n; i += w) {
          fn(i, c);
          if (c.failed_cases > 400) {break;}
        }
        Dump(c, out[k]);
        _exit(0);
      }
    }
    for (unsigned k = 0; k < w; ++k) {
      int st = 0;
      waitpid(pid[k], &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        Merge(out[k]);
      } else {
        std::ostringstream o;
        o << "implementation crashed while running this case (";
        if (WIFSIGNALED(st)) {o << "signal " << WTERMSIG(st);}
        else {o << "exit status " << WEXITSTATUS(st);}
        o << ")";
        total.violations.push_back({shm[k], o.str()});
        ++total.failed_cases;
      }
      munmap(shm[k], shm_len);
    }
  }

  bool Selected(const std::string & key) const {return only.empty() || only == key;}

  std::vector<std::pair<std::string, std::string>> Known() const
  {
    // known findings: lines "finding: property=<id> key=<prefix*|exact> :: text"
    std::vector<std::pair<std::string, std::string>> known;
    std::ifstream kf(verif + "/known_findings.txt");
    std::string line;
    while (std::getline(kf, line)) {
      std::string p = "finding: property=" + id + " key=";
      if (line.compare(0, p.size(), p) == 0) {
        size_t e = line.find(" :: ");
        if (e != std::string::npos) {
          known.push_back({line.substr(p.size(), e - p.size()), line.substr(e + 4)});
        }
      }
    }
    return known;
  }

  int Finish()
  {
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    const auto known = Known();
    std::set<std::string> known_hit;
    std::vector<Violation> fresh;
    for (auto & v : total.violations) {
      bool k = false;
      for (auto & f : known) {
        bool m = f.first.size() && f.first.back() == '*' ?
          v.key.compare(0, f.first.size() - 1, f.first, 0, f.first.size() - 1) == 0 : v.key == f.first;
        if (m) {k = true; known_hit.insert(f.second);}
      }
      if (!k) {fresh.push_back(v);}
    }
    for (auto & k : known_hit) {
      std::cout << "KNOWN-FINDING: property=" << id << " " << k << std::endl;
    }
    std::ostringstream j;
    j << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed <<
      ",\n \"level\": \"" << level << "\",\n \"coverage\": {\n";
    j << "  \"states\": " << total.states.size() << ",\n  \"transitions\": " << total.transitions <<
      ",\n  \"traces_validated_against_impl\": " << total.traces << ",\n";
    j << "  \"evaluations\": " << total.evaluations << ",\n";
    j << "  \"cases\": " << cases << ",\n";
    j << "  \"exhaustive\": true,\n";
    j << "  \"rule\": \"" << jesc(rule) << "\",\n";
    j << "  \"bounds\": {";
    for (size_t i = 0; i < bounds.size(); ++i) {
      j << (i ? ", " : "") << "\"" << jesc(bounds[i].first) << "\": \"" << jesc(bounds[i].second) << "\"";
    }
    j << "},\n  \"counters\": {";
    bool first = true;
    for (auto & c : total.counters) {
      j << (first ? "" : ", ") << "\"" << jesc(c.first) << "\": " << c.second; first = false;
    }
    j << "},\n  \"samples\": [";
    for (size_t i = 0; i < total.samples.size() && i < 8; ++i) {
      j << (i ? ", " : "") << "\"" << jesc(total.samples[i]) << "\"";
    }
    j << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); ++i) {
      j << (i ? ", " : "") << "\"" << jesc(assumptions[i]) << "\"";
    }
    j << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << fresh.size() << "\n}\n";
    if (only.empty()) {
      std::ofstream ev(verif + "/evidence/" + id + ".json");
      ev << j.str();
    }
    std::cout << id << " [" << tier << "] states=" << total.states.size() << " transitions=" <<
      total.transitions << " traces=" << total.traces << " cases=" << cases << " wall=" << wall <<
      "s violations=" << fresh.size() << " known=" << known_hit.size() << std::endl;
    for (auto & c : total.counters) {std::cout << "  " << c.first << " = " << c.second << "\n";}
    if (fresh.empty()) {
      if (total.traces == 0 && only.empty()) {
        std::cout << "nothing was explored" << std::endl;
        return 2;
      }
      return 0;
    }
    std::string rp = verif + "/replays/" + id + ".txt";
    std::ofstream r(rp);
    for (size_t i = 0; i < fresh.size() && i < 50; ++i) {
      r << "case: " << fresh[i].key << "\nwhat: " << fresh[i].what << "\nreplay: bash " << verif <<
        "/check.sh " << id << " " << tier << " --only '" << fresh[i].key << "'\n\n";
      if (i < 10) {std::cout << "  case [" << fresh[i].key << "]: " << fresh[i].what << "\n";}
    }
    std::cout << "VIOLATION property=" << id << " replay=" << rp << std::endl;
    return 1;
  }

private:
  static void Dump(const Ctx & c, const std::string & path)
  {
    std::ofstream o(path, std::ios::binary);
    auto u = [&](uint64_t v) {o.write(reinterpret_cast<char *>(&v), 8);};
    auto s = [&](const std::string & x) {u(x.size()); o.write(x.data(), static_cast<long>(x.size()));};
    u(c.transitions); u(c.traces); u(c.evaluations); u(c.failed_cases);
    u(c.states.size());
    for (auto h : c.states) {u(h);}
    u(c.samples.size());
    for (auto & x : c.samples) {s(x);}
    u(c.violations.size());
    for (auto & v : c.violations) {s(v.key); s(v.what);}
    u(c.counters.size());
    for (auto & k : c.counters) {s(k.first); u(k.second);}
  }
  void Merge(const std::string & path)
  {
    std::ifstream i(path, std::ios::binary);
    auto u = [&]() {uint64_t v = 0; i.read(reinterpret_cast<char *>(&v), 8); return v;};
    auto s = [&]() {std::string x(u(), ' '); i.read(&x[0], static_cast<long>(x.size())); return x;};
    total.transitions += u(); total.traces += u(); total.evaluations += u(); total.failed_cases += u();
    for (uint64_t n = u(), k = 0; k < n; ++k) {total.states.insert(u());}
    for (uint64_t n = u(), k = 0; k < n; ++k) {auto x = s(); if (total.samples.size() < 8) {total.samples.push_back(x);}}
    for (uint64_t n = u(), k = 0; k < n; ++k) {
      auto key = s(); auto what = s(); total.violations.push_back({key, what});
    }
    for (uint64_t n = u(), k = 0; k < n; ++k) {auto key = s(); total.counters[key] += u();}
    i.close();
    unlink(path.c_str());
  }
};

}  // namespace mc

#endif
