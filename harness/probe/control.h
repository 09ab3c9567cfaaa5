#pragma once
// Global instrumentation of the probe equation (recording and scripting).
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <sys/stat.h>
#include <dirent.h>
#include <algorithm>
#include <map>

namespace probe
{
  constexpr unsigned int K = 8; // number of token channels

  inline int rank = 0;
  inline FILE *log = nullptr;
  inline std::mutex mutex;

  /* prepare_state_vector() calls seen so far on this rank (deduplicated) */
  inline std::atomic<int> n_prep = 0;
  /* times at which Dirichlet data was requested since the last sweep */
  inline std::vector<double> bc_times;
  inline double bc_position_error = 0.;
  inline thread_local bool in_bc = false;

  /* (rank, step, sweep within the step); step 0 and absolute sweep in loop mode;
   rank -1: the sweep-th call of the parabolic solver fails */
  inline std::set<std::tuple<int, int, int>> fail_script;
  inline int step_index = 0;
  inline std::vector<double> lambda_table = {1.};
  inline double lambda_interval = 1.e300;
  inline double lambda_slope_i = 0., lambda_slope_j = 0.;
  inline double state_jump = 0.;
  inline int node = -1; // local index of the observed node or -1
  inline bool poll_files = false;
  inline std::string poll_dir = ".";
  inline bool log_state = true;
  inline int exit_at_sweep = -1;

  inline void emit(const std::string &s)
  {
    if (log == nullptr)
      return;
    std::lock_guard<std::mutex> guard(mutex);
    std::fprintf(log, "%s\n", s.c_str());
    std::fflush(log);
  }

  inline std::string num(double x)
  {
    char buf[64];
    if (std::isnan(x))
      return "\"nan\"";
    if (std::isinf(x))
      return x > 0 ? "\"inf\"" : "\"-inf\"";
    std::snprintf(buf, 64, "%.17g", x);
    return buf;
  }

  /* Report every file of the output directory that is new or changed. */
  struct Stamp {
    long long ns, size;
    unsigned long long ino;
    bool operator==(const Stamp &o) const
    {
      return ns == o.ns && size == o.size && ino == o.ino;
    }
  };
  inline std::map<std::string, Stamp> known_files;
  inline void poll(const bool silent = false)
  {
    if (!poll_files || rank != 0)
      return;
    std::vector<std::string> changed;
    DIR *d = opendir(poll_dir.c_str());
    if (d == nullptr)
      return;
    while (auto *e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == ".." || n.rfind("trace.", 0) == 0)
        continue;
      struct stat st;
      if (stat((poll_dir + "/" + n).c_str(), &st) != 0 || !S_ISREG(st.st_mode))
        continue;
      Stamp s{(long long)st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec,
              (long long)st.st_size,
              (unsigned long long)st.st_ino};
      auto it = known_files.find(n);
      if (it == known_files.end() || !(it->second == s)) {
        known_files[n] = s;
        changed.push_back(n);
      }
    }
    closedir(d);
    std::sort(changed.begin(), changed.end());
    std::string files;
    for (auto &n : changed)
      files += (files.empty() ? "\"" : ",\"") + n + "\"";
    if (!changed.empty() && !silent)
      emit("{\"e\":\"files\",\"names\":[" + files + "]}");
  }

  inline void setup(int r, const std::string &trace)
  {
    rank = r;
    if (!trace.empty())
      log = std::fopen((trace + "." + std::to_string(r) + ".jsonl").c_str(), "w");
    if (const char *s = std::getenv("PROBE_FAIL")) {
      std::stringstream ss(s);
      std::string item;
      while (std::getline(ss, item, ';')) {
        int a, b, c;
        if (std::sscanf(item.c_str(), "%d:%d:%d", &a, &b, &c) == 3)
          fail_script.insert({a, b, c});
      }
    }
    if (const char *s = std::getenv("PROBE_LAMBDA")) {
      lambda_table.clear();
      std::stringstream ss(s);
      std::string item;
      while (std::getline(ss, item, ';'))
        lambda_table.push_back(std::atof(item.c_str()));
    }
    if (const char *s = std::getenv("PROBE_LAMBDA_INTERVAL"))
      lambda_interval = std::atof(s);
    if (const char *s = std::getenv("PROBE_LAMBDA_SLOPE"))
      std::sscanf(s, "%lf;%lf", &lambda_slope_i, &lambda_slope_j);
    if (const char *s = std::getenv("PROBE_EXIT"))
      exit_at_sweep = std::atoi(s);
    if (std::getenv("PROBE_POLL")) {
      poll_files = true;
      poll(/*silent, what is already there*/ true);
    }
  }

  inline bool fail_now()
  {
    return !fail_script.empty() && fail_script.count({rank, step_index, n_prep.load()}) > 0;
  }

  inline double lambda(double clk, double zi, double zj)
  {
    int k = int(std::floor(clk / lambda_interval + 1.e-9));
    k = std::max(0, std::min(k, int(lambda_table.size()) - 1));
    return lambda_table[k] * (1. + lambda_slope_i * zi + lambda_slope_j * zj);
  }
} // namespace probe
