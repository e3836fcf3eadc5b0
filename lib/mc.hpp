// Stateless exhaustive explorer used by every harness.
//
// A scenario is a function that makes choices through a Chooser (free choices, or "deviations" from a default
// that are bounded per execution) and returns the closure to execute.  The driver enumerates every choice
// sequence within the deviation bound, shares the leaves among worker processes, runs each closure in a forked
// child (so that a crash, an assert, a sanitizer report or a hang is observed, not suffered) and collects
// what the closure recorded.  Nothing is random.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}

struct Chooser {
  std::vector<int> prefix;            // choices imposed
  std::vector<int> path, arity, cost; // choices made
  std::vector<std::string> labels;
  int bound = 0, used = 0;
  bool diverged = false;
  void reset() { path.clear(); arity.clear(); cost.clear(); labels.clear(); used = 0; diverged = false; }
  int pick(const char *label, int n, int c) {
    size_t i = path.size();
    int v = 0;
    if (i < prefix.size()) { v = prefix[i]; if (v < 0 || v >= n) { diverged = true; v = 0; } }
    path.push_back(v); arity.push_back(n); cost.push_back(c); labels.push_back(label);
    if (v && c) used += c;
    return v;
  }
  int choose(const char *label, int n) { return pick(label, n, 0); }      // free choice, all explored
  // default is 0; any other value costs one deviation
  int dev(const char *label, int n) { return pick(label, used < bound ? n : 1, 1); }
  std::string text() const {
    std::string s;
    for (size_t i = 0; i < path.size(); i++) { if (i) s += " "; s += labels[i] + "=" + std::to_string(path[i]); }
    return s;
  }
};

struct Rec { // shared memory, written by the child
  volatile int done, failed, nstates;
  volatile uint64_t outcome;
  volatile uint64_t transitions;
  volatile uint64_t nontrivial;
  volatile long cur;
  char msg[1000];
  char note[400];
  uint64_t states[4096];
  void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (failed) return;
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    failed = 1;
  }
  void state(uint64_t h) { if (nstates < 4096) { states[nstates] = h; nstates = nstates + 1; } }
  void obs(uint64_t h) { outcome = mix(outcome, h); }
  void trans(uint64_t n = 1) { transitions = transitions + n; }
  void clear() { done = failed = nstates = 0; outcome = 0; transitions = 0; nontrivial = 0; msg[0] = note[0] = 0; }
};

typedef std::function<void(Rec &)> Exec;
typedef std::function<Exec(Chooser &)> Body;

struct Scenario {
  std::string name, rule;
  Body body;
  int bound_quick = 0, bound_thorough = 0;
  bool isolate = true;       // one fork per leaf
  double leaf_timeout = 30;  // seconds
};

struct Viol { std::string scenario, msg, labels; std::vector<int> choices; };

struct Result {
  std::string name, rule;
  long leaves = 0, executed = 0, skipped = 0, failed = 0, nontrivial = 0;
  int bound = 0; bool complete = true;
  std::unordered_set<uint64_t> outcomes, states;
  uint64_t transitions = 0;
  std::vector<std::string> samples;
  std::vector<Viol> viols;
};

inline std::string &errfile() { static std::string s; return s; }

// Runs e in a child; returns "" or the failure.
inline std::string run_child(const Exec &e, Rec *r, double timeout) {
  r->clear();
  fflush(NULL);
  std::string ef = errfile();
  pid_t p = fork();
  if (p < 0) return "harness|fork failed";
  if (p == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int n = open("/dev/null", O_WRONLY); dup2(n, 1);
    int en = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (!getenv("MC_STAT")) dup2(en >= 0 ? en : n, 2);
    setpgid(0, 0);
    e(*r);
    r->done = 1;
    fflush(NULL);
    _exit(0);
  }
  double t0 = now(); int st = 0; long spins = 0;
  for (;;) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (now() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); return "timeout|no answer within the time limit"; }
    spins++;
    struct timespec ts = {0, spins < 50 ? 50000 : spins < 500 ? 300000 : 2000000};
    nanosleep(&ts, 0);
  }
  if (r->failed) return std::string(r->msg);
  if (WIFSIGNALED(st)) return std::string("crash|killed by signal ") + std::to_string(WTERMSIG(st));
  if (!r->done || WEXITSTATUS(st) != 0) {
    // assert / sanitizer / exit() inside the library: keep the telling line
    std::string l = "crash|exit status " + std::to_string(WEXITSTATUS(st)) + " before the call returned";
    if (FILE *f = fopen(ef.c_str(), "r")) {
      char b[2000];
      while (fgets(b, sizeof b, f)) {
        char *s;
        if ((s = strstr(b, "Assertion `"))) { // "exe: file:line: func: Assertion `...' failed"
          std::string x(b); size_t a = x.find(": Assertion `");
          size_t q = x.rfind(": ", a == std::string::npos ? a : a - 1);
          l = "assert|" + x.substr(q == std::string::npos ? 0 : q + 2); while (!l.empty() && l.back() == '\n') l.pop_back();
          break;
        }
        if ((s = strstr(b, "SUMMARY:"))) { l = std::string("sanitizer|") + s; while (!l.empty() && l.back() == '\n') l.pop_back(); break; }
        if ((s = strstr(b, "runtime error:"))) { l = std::string("sanitizer|") + b; while (!l.empty() && l.back() == '\n') l.pop_back(); break; }
      }
      fclose(f);
    }
    return l;
  }
  return "";
}

inline bool next_prefix(Chooser &c) { // depth first: bump the last choice that can be bumped
  std::vector<int> p = c.path;
  for (int i = (int)p.size() - 1; i >= 0; i--) {
    if (p[i] + 1 < c.arity[i]) { p[i]++; p.resize(i + 1); c.prefix = p; return true; }
  }
  return false;
}

inline void put64(FILE *f, uint64_t v) { fwrite(&v, 8, 1, f); }
inline void putstr(FILE *f, const std::string &s) { put64(f, s.size()); fwrite(s.data(), 1, s.size(), f); }
inline uint64_t get64(FILE *f) { uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) return 0; return v; }
inline std::string getstr(FILE *f) { std::string s(get64(f), 0); if (s.size() && fread(&s[0], 1, s.size(), f) != s.size()) s.clear(); return s; }

struct Options { std::string scratch = "/tmp"; int workers = 8; bool thorough = false; double budget = 300; int boundOverride = -1; };

inline Rec *shared_rec() {
  return (Rec *)mmap(0, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

inline void worker(const Scenario &s, const Options &o, int w, int bound, double deadline, const std::string &outf) {
  Rec *r = shared_rec();
  errfile() = o.scratch + "/err." + std::to_string(w);
  long leaves = 0, executed = 0, skipped = 0, failed = 0, nontriv = 0; bool complete = true;
  std::unordered_set<uint64_t> outcomes, states; uint64_t trans = 0;
  std::vector<std::string> samples; std::vector<Viol> viols;
  for (int b = 0; b <= bound && complete; b++) { // iterate the bound: executions with exactly b deviations
    Chooser c; c.bound = b;
    for (bool more = true; more && complete;) {
      c.reset();
      Exec e = s.body(c);
      if (c.used == b) {
        long id = leaves++;
        if (id % o.workers == w) {
          if (!e) skipped++;
          else if (now() > deadline) { complete = false; break; }
          else {
            std::string m = run_child(e, r, s.leaf_timeout);
            if (m.compare(0, 8, "timeout|") == 0) m = run_child(e, r, 4 * s.leaf_timeout); // alone, longer
            executed++;
            outcomes.insert((uint64_t)r->outcome); trans += r->transitions; nontriv += r->nontrivial ? 1 : 0;
            for (int i = 0; i < r->nstates; i++) states.insert((uint64_t)r->states[i]);
            if (samples.size() < 3 && (executed % 97 == 1)) samples.push_back(c.text() + (r->note[0] ? std::string("  ->  ") + (char *)r->note : ""));
            if (!m.empty()) {
              failed++;
              if (viols.size() < 3000) viols.push_back({s.name, m, c.text(), c.path});
            }
          }
        }
      }
      more = next_prefix(c);
    }
  }
  FILE *f = fopen(outf.c_str(), "wb");
  put64(f, leaves); put64(f, executed); put64(f, skipped); put64(f, failed); put64(f, nontriv); put64(f, complete); put64(f, trans);
  put64(f, outcomes.size()); for (uint64_t h : outcomes) put64(f, h);
  put64(f, states.size()); for (uint64_t h : states) put64(f, h);
  put64(f, samples.size()); for (auto &x : samples) putstr(f, x);
  put64(f, viols.size());
  for (auto &v : viols) { putstr(f, v.msg); putstr(f, v.labels); put64(f, v.choices.size()); for (int x : v.choices) put64(f, (uint64_t)x); }
  fclose(f);
}

inline Result explore(const Scenario &s, const Options &o, double deadline) {
  Result R; R.name = s.name; R.rule = s.rule;
  R.bound = o.boundOverride >= 0 ? o.boundOverride : o.thorough ? s.bound_thorough : s.bound_quick;
  std::vector<pid_t> ps;
  fflush(NULL);
  for (int w = 0; w < o.workers; w++) {
    std::string f = o.scratch + "/res." + std::to_string(w);
    unlink(f.c_str());
    pid_t p = fork();
    if (p == 0) { worker(s, o, w, R.bound, deadline, f); _exit(0); }
    ps.push_back(p);
  }
  for (int w = 0; w < o.workers; w++) {
    int st; waitpid(ps[w], &st, 0);
    FILE *f = fopen((o.scratch + "/res." + std::to_string(w)).c_str(), "rb");
    if (!f) { fprintf(stderr, "worker %d lost (status %d)\n", w, st); exit(3); }
    R.leaves = std::max<long>(R.leaves, get64(f)); R.executed += get64(f); R.skipped += get64(f); R.failed += get64(f); R.nontrivial += get64(f);
    R.complete = get64(f) && R.complete; R.transitions += get64(f);
    for (uint64_t n = get64(f); n--;) R.outcomes.insert(get64(f));
    for (uint64_t n = get64(f); n--;) R.states.insert(get64(f));
    for (uint64_t n = get64(f); n--;) { std::string x = getstr(f); if (R.samples.size() < 4) R.samples.push_back(x); }
    for (uint64_t n = get64(f); n--;) {
      Viol v; v.scenario = s.name; v.msg = getstr(f); v.labels = getstr(f);
      for (uint64_t k = get64(f); k--;) v.choices.push_back((int)get64(f));
      R.viols.push_back(v);
    }
    fclose(f);
  }
  return R;
}

inline std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

// main: exe --prop ID [--tier quick|thorough] [--out F] [--scratch D] [--budget S] [--workers N] [--only SCEN]
//       exe --prop ID --replay SCEN --choices 1,2,3 [--verbose]
inline int driver(int argc, char **argv, const std::map<std::string, std::function<std::vector<Scenario>(bool)>> &props) {
  Options o; std::string prop, out, only, rep, ch; bool verbose = false, list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--tier") o.thorough = nx() == "thorough";
    else if (a == "--out") out = nx(); else if (a == "--scratch") o.scratch = nx(); else if (a == "--budget") o.budget = atof(nx().c_str());
    else if (a == "--workers") o.workers = atoi(nx().c_str()); else if (a == "--only") only = nx();
    else if (a == "--bound") o.boundOverride = atoi(nx().c_str());
    else if (a == "--replay") rep = nx(); else if (a == "--choices") ch = nx(); else if (a == "--verbose") verbose = true; else if (a == "--list") list = true;
  }
  auto it = props.find(prop);
  if (it == props.end()) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  std::vector<Scenario> sc = it->second(o.thorough);
  signal(SIGPIPE, SIG_IGN);
  if (list) { for (auto &s : sc) printf("%s\n", s.name.c_str()); return 0; }
  if (!rep.empty()) {
    for (auto &s : sc) if (s.name == rep) {
      Chooser c; c.bound = 1000;
      for (const char *p = ch.c_str(); *p;) { c.prefix.push_back(strtol(p, (char **)&p, 10)); if (*p == ',') p++; }
      Exec e = s.body(c);
      if (c.diverged || c.path.size() < c.prefix.size()) { printf("REPLAY-DIVERGED\n"); return 4; }
      printf("scenario %s\nchoices %s\n", s.name.c_str(), c.text().c_str());
      if (!e) { printf("REPLAY-SKIPPED\n"); return 0; }
      Rec *r = shared_rec(); errfile() = o.scratch + "/err.replay";
      if (verbose) { r->clear(); e(*r); printf("%s\n%s\n", r->note, r->failed ? r->msg : "ok"); return 0; }
      std::string m = run_child(e, r, 4 * s.leaf_timeout);
      printf("outcome %016lx note %s\n", (unsigned long)r->outcome, r->note);
      if (!m.empty()) { printf("REPLAY-FAIL %s\n", m.c_str()); return 1; }
      printf("REPLAY-OK\n"); return 0;
    }
    fprintf(stderr, "unknown scenario %s\n", rep.c_str()); return 2;
  }
  double t0 = now(), deadline = t0 + o.budget;
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"property\":%s,\"tier\":\"%s\",\"scenarios\":[", js(prop).c_str(), o.thorough ? "thorough" : "quick");
  bool first = true; std::string vj; int left = 0; for (auto &s : sc) left += only.empty() || only == s.name;
  for (auto &s : sc) {
    if (!only.empty() && only != s.name) continue;
    double ts = now();
    Result R = explore(s, o, o.thorough ? ts + (deadline - ts) / left-- : deadline); // thorough: equal shares of the remaining time
    fprintf(stderr, "%-34s bound=%d leaves=%ld executed=%ld skipped=%ld failed=%ld nontrivial=%ld outcomes=%zu states=%zu trans=%lu %s %.1fs\n", s.name.c_str(), R.bound, R.leaves,
            R.executed, R.skipped, R.failed, R.nontrivial, R.outcomes.size(), R.states.size(), (unsigned long)R.transitions, R.complete ? "complete" : "CUT", now() - ts);
    fprintf(f, "%s{\"name\":%s,\"rule\":%s,\"bound\":%d,\"leaves\":%ld,\"executed\":%ld,\"skipped\":%ld,\"failed\":%ld,\"nontrivial\":%ld,\"outcomes\":%zu,\"states\":%zu,\"transitions\":%lu,\"complete\":%s,\"wall_s\":%.2f,\"samples\":[",
            first ? "" : ",", js(s.name).c_str(), js(s.rule).c_str(), R.bound, R.leaves, R.executed, R.skipped, R.failed, R.nontrivial, R.outcomes.size(), R.states.size(), (unsigned long)R.transitions, R.complete ? "true" : "false", now() - ts);
    for (size_t i = 0; i < R.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(R.samples[i]).c_str());
    fprintf(f, "]}"); first = false;
    for (auto &v : R.viols) {
      if (!vj.empty()) vj += ",";
      vj += "{\"scenario\":" + js(v.scenario) + ",\"msg\":" + js(v.msg) + ",\"labels\":" + js(v.labels) + ",\"choices\":[";
      for (size_t i = 0; i < v.choices.size(); i++) vj += (i ? "," : "") + std::to_string(v.choices[i]);
      vj += "]}";
    }
  }
  fprintf(f, "],\"violations\":[%s],\"wall_s\":%.2f}\n", vj.c_str(), now() - t0);
  if (f != stdout) fclose(f);
  return 0;
}
} // namespace mc
