// Common command line, case bookkeeping and JSON report of all harnesses.
#ifndef REPORT_HPP
#define REPORT_HPP
#include "kin.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline uint64_t hstr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

// Exactly one verdict per case: held (silent), violated (bad), or undecided (not enough precision, not offered).
struct Report {
  std::string prop, out, only, mode;
  int scale = 1;        // divides the case counts (slow tools)
  bool nofunc = false;  // only the tool's own reports count, value mismatches belong to other properties
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, nshards = 1;
  uint64_t evaluations = 0, undecided = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> stats;
  std::vector<std::string> samples;
  std::set<std::string> sampleKinds;
  struct V { std::string key, kase, detail; };
  std::vector<V> bads;
  std::map<std::string, int> badCount;
  char *inflight = 0;

  Report(int argc, char **argv) {
    std::string infl;
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--prop") prop = v;
      else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
      else if (a == "--tier") thorough = v == "thorough";
      else if (a == "--shard") shard = atoi(v.c_str());
      else if (a == "--nshards") nshards = atoi(v.c_str());
      else if (a == "--out") out = v;
      else if (a == "--inflight") infl = v;
      else if (a == "--only") only = v;
      else if (a == "--mode") mode = v;
      else if (a == "--scale") scale = atoi(v.c_str());
      else if (a == "--nofunc") nofunc = v == "1";
    }
    if (!infl.empty()) {
      int fd = open(infl.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) {
        void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) inflight = (char *)m;
      }
      if (fd >= 0) close(fd);
    }
  }
  int n(int quick, int thor) const { int k = (thorough ? thor : quick) / scale; return k > 0 ? k : 1; }
  uint64_t cseed(const std::string &id, int i) const { return mix(mix(seed, hstr(prop)), mix(hstr(id), i)); }
  bool mine(size_t i) const { return (int)(i % nshards) == shard; }
  // Case ids are "<group>#<index>"; the random numbers of a case depend only on property, seed and id.
  bool begin(const std::string &kase) {
    if (!only.empty() && only != kase) return false;
    cur = kase;
    if (inflight) { strncpy(inflight, kase.c_str(), 4000); inflight[4000] = 0; }
    return true;
  }
  std::string cur;
  void eval(uint64_t k = 1) { evaluations += k; }
  void nontrivial(uint64_t h) { if (distinct.size() < 4000000) distinct.insert(h); }
  void sample(const std::string &kind, const std::string &s) {
    if (samples.size() < 6 && sampleKinds.insert(kind).second) samples.push_back(s);
  }
  void stat(const std::string &k, uint64_t d = 1) { stats[k] += d; }
  void bad(const std::string &key, const std::string &detail) {
    if (nofunc) { stats["value mismatches (not judged here)"]++; return; }
    if (badCount[key]++ == 0 && bads.size() < 200) bads.push_back({key, cur, detail});
  }
  // Runs one case; anything thrown out of it is a violation of the property under test.
  template <class F> void run(const std::string &group, int idx, F f) {
    std::string id = group + "#" + std::to_string(idx);
    if (!begin(id)) return;
    Rng r(cseed(group, idx));
    try { f(r); }
    catch (const std::exception &e) { bad(group + ":exception", std::string("unexpected exception: ") + e.what()); }
    catch (...) { bad(group + ":exception", "unexpected exception of unknown type"); }
  }
  static std::string esc(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
      else o += c;
    }
    return o + "\"";
  }
  int finish() {
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"undecided\":%llu,\"stats\":{", (unsigned long long)evaluations,
            (unsigned long long)distinct.size(), (unsigned long long)undecided);
    bool c = false;
    for (auto &s : stats) fprintf(f, "%s%s:%llu", c ? "," : "", esc(s.first).c_str(), (unsigned long long)s.second), c = true;
    fprintf(f, "},\"samples\":[");
    c = false;
    for (auto &s : samples) fprintf(f, "%s%s", c ? "," : "", esc(s).c_str()), c = true;
    fprintf(f, "],\"violations\":[");
    c = false;
    for (auto &v : bads)
      fprintf(f, "%s{\"key\":%s,\"case\":%s,\"count\":%d,\"detail\":%s}", c ? ",\n" : "\n", esc(v.key).c_str(), esc(v.kase).c_str(),
              badCount[v.key], esc(v.detail).c_str()), c = true;
    fprintf(f, "],\"complete\":true}\n");
    if (f != stdout) fclose(f);
    return 0;
  }
};
#endif
