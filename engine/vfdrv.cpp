// Case driver: run / replay / shrink over recorded choice sequences. Independent of the simulator.
#include "vf.h"
#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

namespace {

constexpr uint32_t kMax = 1 << 16;
struct State {
  uint64_t magic, caseno, sched;
  uint32_t n, overflow;
  char msg[2048];
  uint32_t v[kMax];
};
State g_local;
State *S = &g_local;

uint64_t g_rng;
bool g_replay = false;
std::vector<uint32_t> g_in;
size_t g_pos = 0;
bool g_verbose = false;
bool g_trivial = true;
std::string g_notes;
std::map<std::string, uint64_t> g_labels;
std::vector<std::string> g_case_labels;
bool g_is_child = false;

uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x1234567;
  return splitmix(x);
}
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

} // namespace

__attribute__((weak)) void sim_quiet(bool);
struct HostScope { // bookkeeping stays outside the simulated heap
  HostScope() { if (sim_quiet) sim_quiet(true); }
  ~HostScope() { if (sim_quiet) sim_quiet(false); }
};

uint64_t exec_hash_extra = 0; // set by the simulator: hash of the interleaving

uint32_t Gen::below(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t r;
  if (g_replay) {
    r = g_pos < g_in.size() ? g_in[g_pos] % n : 0;
    ++g_pos;
  } else {
    r = (uint32_t)(splitmix(g_rng) % n);
  }
  if (S->n < kMax)
    S->v[S->n++] = r;
  else
    S->overflow = 1;
  return r;
}

uint64_t sched_seed() { return S->sched; }
bool verbose() { return g_verbose; }
void nontrivial() { g_trivial = false; }

void note(char const *fmt, ...) {
  HostScope hs;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_verbose) {
    fprintf(stdout, "  %s\n", buf);
    fflush(stdout);
  }
  if (g_notes.size() < 2000) {
    g_notes += buf;
    g_notes += "; ";
  }
}
void label(char const *name) {
  HostScope hs;
  for (auto &s : g_case_labels)
    if (s == name) return;
  g_case_labels.push_back(name);
}
void count(char const *name, uint64_t n) {
  HostScope hs;
  g_labels[std::string("#") + name] += n; }

static void put_msg(char const *m) {
  size_t k = strlen(m);
  if (k > sizeof(S->msg) - 1) k = sizeof(S->msg) - 1;
  memcpy(S->msg, m, k);
  S->msg[k] = 0;
}

void fail(char const *fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  put_msg(buf);
  dprintf(1, "FAIL case=%llu sched=%llu: %s\n", (unsigned long long)S->caseno, (unsigned long long)S->sched, buf);
  _exit(77);
}

void crash(char const *what) { // async-signal-safe
  put_msg(what);
  ssize_t r = write(1, "FAIL ", 5);
  r = write(1, what, strlen(what));
  r = write(1, "\n", 1);
  (void)r;
  _exit(78);
}

namespace {

void on_signal(int sig) {
  switch (sig) {
    case SIGSEGV: crash("crash: SIGSEGV");
    case SIGBUS: crash("crash: SIGBUS");
    case SIGILL: crash("crash: SIGILL");
    case SIGFPE: crash("crash: SIGFPE");
    case SIGALRM: crash("hang: execution exceeded its wall-clock watchdog");
    default: crash("crash: SIGABRT");
  }
}

std::string opt(int argc, char **argv, char const *name, char const *dflt) {
  for (int i = 2; i + 1 < argc; ++i)
    if (!strcmp(argv[i], name)) return argv[i + 1];
  return dflt;
}
bool flag(int argc, char **argv, char const *name) {
  for (int i = 2; i < argc; ++i)
    if (!strcmp(argv[i], name)) return true;
  return false;
}

unsigned g_watchdog = 60;

void one(Gen &g) {
  S->n = 0;
  S->overflow = 0;
  g_pos = 0;
  g_trivial = true;
  g_notes.clear();
  g_case_labels.clear();
  exec_hash_extra = 0;
  alarm(g_watchdog);
  run_case(g);
  alarm(0);
}

bool load(std::string const &file, std::vector<uint32_t> &v, uint64_t &sched) {
  FILE *f = fopen(file.c_str(), "r");
  if (!f) return false;
  char line[64];
  unsigned long long s = 0;
  int ch;
  while ((ch = fgetc(f)) == '#') // header lines
    while (ch != '\n' && ch != EOF) ch = fgetc(f);
  if (ch != EOF) ungetc(ch, f);
  if (fscanf(f, "%63s %llu", line, &s) != 2) return false;
  sched = s;
  if (fscanf(f, "%63s", line) != 1) return false;
  unsigned x;
  v.clear();
  while (fscanf(f, "%u", &x) == 1) v.push_back(x);
  fclose(f);
  return true;
}
void save(std::string const &file, std::vector<uint32_t> const &v, uint64_t sched) {
  FILE *f = fopen(file.c_str(), "w");
  fprintf(f, "sched %llu\nchoices", (unsigned long long)sched);
  for (auto x : v) fprintf(f, " %u", x);
  fprintf(f, "\n");
  fclose(f);
}

std::string json_escape(std::string const &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

} // namespace

extern "C" void __attribute__((weak)) vf_install_stack() {}

int driver(int argc, char **argv) {
  if (argc < 2) {
    fprintf(stderr, "usage: %s run|replay|shrink ...\n", argv[0]);
    return 2;
  }
  setvbuf(stdout, nullptr, _IOLBF, 4096);
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) {
#ifdef VF_NATIVE
    if (s != SIGALRM) continue; // left to the sanitizer runtime / default action
#endif
    if (getenv("VF_NATIVE_SIGNALS") && s != SIGALRM) continue;
    sigaction(s, &sa, nullptr);
  }
  g_watchdog = (unsigned)atoi(opt(argc, argv, "--watchdog", "60").c_str());

  std::string state = opt(argc, argv, "--state", "");
  if (!state.empty()) {
    int fd = open(state.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) return 2;
    S = (State *)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (S == MAP_FAILED) return 2;
    close(fd);
  }
  S->magic = 0x5646;
  Gen g;
  std::string mode = argv[1];

  if (mode == "run") {
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    uint64_t shard = strtoull(opt(argc, argv, "--shard", "0").c_str(), nullptr, 10);
    uint64_t cases = strtoull(opt(argc, argv, "--cases", "1000").c_str(), nullptr, 10);
    double tmax = atof(opt(argc, argv, "--time", "60").c_str());
    double t0 = now();
    uint64_t execs = 0, done = 0, nontriv = 0, sampled = 0;
    std::unordered_set<uint64_t> distinct, progs;
    std::vector<std::string> samples;
    for (uint64_t c = 0; c < cases; ++c) {
      if (now() - t0 > tmax) break;
      S->caseno = c;
      for (unsigned k = 0; k < sched_per_case; ++k) {
        S->sched = mix(mix(seed, shard * 1000003 + c), k + 77) >> 1;
        g_rng = mix(mix(seed, shard + 5), c);
        one(g);
        ++execs;
        uint64_t h = 1469598103934665603ull;
        for (uint32_t i = 0; i < S->n; ++i) h = (h ^ S->v[i]) * 1099511628211ull;
        if (progs.size() < 1000000) progs.insert(h);
        if (!g_trivial) {
          ++nontriv;
          if (distinct.size() < 1000000) distinct.insert(mix(h, exec_hash_extra));
        }
        for (auto &l : g_case_labels) ++g_labels[l];
        if (!g_trivial && sampled < 3 && (k == 0) && !g_notes.empty()) {
          std::string s = "case " + std::to_string(c) + " sched " + std::to_string(S->sched) + ": " + g_notes;
          samples.push_back(s.substr(0, 1200));
          ++sampled;
        }
      }
      ++done;
    }
    std::string hf = opt(argc, argv, "--hashes", "");
    if (!hf.empty()) {
      if (FILE *f = fopen(hf.c_str(), "w")) {
        for (uint64_t h : distinct) fwrite(&h, 8, 1, f);
        fclose(f);
      }
    }
    std::string out = opt(argc, argv, "--out", "");
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"cases\":%llu,\"executions\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"programs\":%zu,\"wall\":%.3f,\"rule\":\"%s\",\"labels\":{",
            (unsigned long long)done, (unsigned long long)execs, (unsigned long long)nontriv, distinct.size(),
            progs.size(), now() - t0, json_escape(nontrivial_rule).c_str());
    bool first = true;
    for (auto &[k, v] : g_labels) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(k).c_str(), (unsigned long long)v);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i)
      fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(samples[i]).c_str());
    fprintf(f, "]}\n");
    if (!out.empty()) fclose(f);
    return 0;
  }

  std::vector<uint32_t> v;
  uint64_t sched = 0;
  if (!load(opt(argc, argv, "--case", ""), v, sched)) {
    fprintf(stderr, "cannot read case\n");
    return 2;
  }
  unsigned tries = (unsigned)atoi(opt(argc, argv, "--tries", "1").c_str());

  if (mode == "replay") {
    g_verbose = flag(argc, argv, "--verbose");
    g_replay = true;
    g_in = v;
    for (unsigned k = 0; k < tries; ++k) {
      S->sched = k == 0 ? sched : mix(sched, k) >> 1;
      one(g);
    }
    printf("OK (no failure in %u executions)\n", tries);
    return 0;
  }

  if (mode == "shrink") {
    double tmax = atof(opt(argc, argv, "--time", "60").c_str());
    double t0 = now();
    State *sh = (State *)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S = sh;
    uint64_t best_sched = sched;
    std::string best_msg;
    auto attempt = [&](std::vector<uint32_t> const &cand) -> bool {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        g_replay = true;
        g_in = cand;
        for (unsigned k = 0; k < tries; ++k) {
          S->sched = k == 0 ? best_sched : mix(best_sched, k) >> 1;
          one(g);
        }
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
      best_sched = sh->sched;
      best_msg = sh->msg;
      return true;
    };
    if (!attempt(v)) {
      printf("NOTREPRODUCED\n");
      return 0;
    }
    // keep exactly the choices the failing execution consumed
    v.assign(sh->v, sh->v + sh->n);
    bool progress = true;
    while (progress && now() - t0 < tmax) {
      progress = false;
      for (size_t len = std::max<size_t>(1, v.size() / 2); len >= 1 && now() - t0 < tmax; len /= 2) {
        for (size_t i = 0; i + len <= v.size() && now() - t0 < tmax;) {
          std::vector<uint32_t> c(v.begin(), v.begin() + (long)i);
          c.insert(c.end(), v.begin() + (long)(i + len), v.end());
          if (attempt(c)) {
            v = c;
            progress = true;
          } else
            i += len;
        }
        if (len == 1) break;
      }
      for (size_t i = 0; i < v.size() && now() - t0 < tmax; ++i) {
        if (v[i] == 0) continue;
        auto c = v;
        c[i] = 0;
        if (attempt(c)) {
          v = c;
          progress = true;
          continue;
        }
        uint32_t lo = 0, hi = v[i];
        for (int it = 0; it < 6 && lo + 1 < hi && now() - t0 < tmax; ++it) {
          c[i] = lo + (hi - lo) / 2;
          if (attempt(c)) {
            hi = c[i];
            v = c;
            progress = true;
          } else
            lo = c[i];
        }
      }
    }
    while (!v.empty() && v.back() == 0) v.pop_back();
    attempt(v);
    save(opt(argc, argv, "--save", "shrunk.case"), v, best_sched);
    printf("SHRUNK %zu choices: %s\n", v.size(), best_msg.c_str());
    return 0;
  }
  return 2;
}

} // namespace vf

int main(int argc, char **argv) { return vf::driver(argc, argv); }
