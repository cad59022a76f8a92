// native runtime of the contract language: seeded generator + replay
#include "vx.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <ctime>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace {
  struct discard {};
  struct failure {
    std::string label;
  };
  std::mt19937_64 rng;
  std::map<std::string, std::string> fixed; // replay values
  std::map<std::string, int> seen;
  bool recording = true;
  std::string record;
  std::map<std::string, int> covers;
  std::vector<void *> to_free;
  uint64_t uf_salt = 0;
  bool failed      = false;
  std::string fail_label;

  struct shared_t {
    long iter, done, discarded;
    char label[256];
    char record[1 << 16];
    char covers[1 << 13];
  } *sh = nullptr;

  std::string uniq(const char *name) {
    std::string s = name;
    int k         = seen[s]++;
    if (k) s += "#" + std::to_string(k);
    return s;
  }
  void rec(std::string const &n, std::string const &v) {
    record += n + " = " + v + "\n";
    if (sh) {
      size_t m = std::min(record.size(), sizeof(sh->record) - 1);
      memcpy(sh->record, record.data(), m);
      sh->record[m] = 0;
    }
  }
  double size_bias = 1;
  int64_t gen_i64(int64_t lo, int64_t hi) {
    if (lo >= hi) return lo;
    uint64_t span = uint64_t(hi) - uint64_t(lo);
    switch (rng() % 8) {
      case 0: return lo + int64_t(rng() % std::min<uint64_t>(span, 3));
      case 1: return hi - int64_t(rng() % std::min<uint64_t>(span, 3));
      case 2:
      case 3: { // near zero
        int64_t z = int64_t(rng() % 17) - 8;
        if (z >= lo && z <= hi) return z;
        [[fallthrough]];
      }
      case 4: { // random magnitude
        int bits   = 64 - __builtin_clzll(span);
        uint64_t m = rng() >> (64 - (1 + rng() % bits));
        if (m > span) m = span;
        return int64_t(uint64_t(lo) + m);
      }
      default: return span == UINT64_MAX ? int64_t(rng()) : int64_t(uint64_t(lo) + rng() % (span + 1));
    }
  }
  double gen_f64(double lo, double hi) {
    switch (rng() % 6) {
      case 0: {
        double z = double(int64_t(rng() % 9) - 4) / 2;
        if (z >= lo && z <= hi) return z;
        [[fallthrough]];
      }
      case 1: return (rng() % 2) ? lo : hi;
      case 2: {
        double z = std::ldexp(double(int64_t(rng() % 2001) - 1000), -int(rng() % 12));
        if (z >= lo && z <= hi) return z;
        [[fallthrough]];
      }
      default: return lo + (hi - lo) * (double(rng() >> 11) / 9007199254740992.0);
    }
  }
} // namespace

extern "C" {
int64_t vx_any_i64(const char *name, int64_t lo, int64_t hi) {
  if (lo > hi) throw discard{};
  auto n    = uniq(name);
  int64_t v = 0;
  if (auto it = fixed.find(n); it != fixed.end()) {
    v = int64_t(strtoll(it->second.c_str(), nullptr, 10));
    if (v < lo || v > hi) throw discard{};
  } else
    v = gen_i64(lo, hi);
  rec(n, std::to_string(v));
  return v;
}
int64_t vx_any_near(const char *name, int64_t lo, int64_t hi, int64_t l, int64_t h) {
  if (lo > hi) throw discard{};
  auto n    = uniq(name);
  int64_t v = 0;
  if (auto it = fixed.find(n); it != fixed.end()) {
    v = int64_t(strtoll(it->second.c_str(), nullptr, 10));
    if (v < lo || v > hi) throw discard{};
  } else {
    l = std::max(l, lo), h = std::min(h, hi);
    v = (l <= h && rng() % 8) ? gen_i64(l, h) : gen_i64(lo, hi);
  }
  rec(n, std::to_string(v));
  return v;
}
uint64_t vx_any_u64(const char *name) {
  auto n = uniq(name);
  uint64_t v;
  if (auto it = fixed.find(n); it != fixed.end())
    v = strtoull(it->second.c_str(), nullptr, 10);
  else {
    switch (rng() % 8) {
      case 0: v = rng() % 16; break;
      case 4: v = ~(rng() % 16); break;
      case 5: v = rng(); break;
      case 1: v = rng() & rng(); break;
      case 2: v = rng() | rng(); break;
      case 3: v = 1ull << (rng() % 64); break;
      default: v = rng() >> (rng() % 64);
    }
  }
  rec(n, std::to_string(v));
  return v;
}
double vx_any_f64(const char *name, double lo, double hi) {
  if (lo > hi) throw discard{};
  auto n = uniq(name);
  double v;
  if (auto it = fixed.find(n); it != fixed.end())
    v = strtod(it->second.c_str(), nullptr);
  else
    v = gen_f64(lo, hi);
  char b[64];
  snprintf(b, 64, "%.17g", v);
  rec(n, b);
  return v;
}
void *vx_any_array_i64(const char *name, int64_t n, int64_t lo, int64_t hi) {
  auto *p = (int64_t *)malloc(n * 8 + 8);
  for (int64_t i = 0; i < n; ++i) p[i] = vx_any_i64((std::string(name) + "[" + std::to_string(i) + "]").c_str(), lo, hi);
  return p;
}
void *vx_any_array_u32(const char *name, int64_t n) {
  auto *p = (uint32_t *)malloc(n * 4 + 8);
  for (int64_t i = 0; i < n; ++i) p[i] = uint32_t(vx_any_i64((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 0, 0xffffffffll));
  return p;
}
void *vx_any_array_f64(const char *name, int64_t n, double lo, double hi) {
  auto *p = (double *)malloc(n * 8 + 8);
  for (int64_t i = 0; i < n; ++i) p[i] = vx_any_f64((std::string(name) + "[" + std::to_string(i) + "]").c_str(), lo, hi);
  return p;
}
void vx_assume_(bool c) {
  if (!c) throw discard{};
}
void vx_assert_(bool c, const char *label) {
  if (!c) {
    if (!failed) {
      failed = true;
      fail_label = label;
      if (sh) snprintf(sh->label, sizeof sh->label, "%s", label);
    }
    throw failure{label};
  }
}
void vx_cover_(const char *label) { covers[label]++; }
bool vx_forall_(int64_t lo, int64_t hi, bool (*f)(void *, int64_t), void *ctx) {
  for (int64_t k = lo; k < hi; ++k)
    if (!f(ctx, k)) return false;
  return true;
}
static uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdull;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ull;
  x ^= x >> 33;
  return x;
}
int64_t vx_uf_i64_(const char *name, int64_t a, int64_t b) {
  uint64_t h = uf_salt;
  for (; *name; ++name) h = mix(h + *name);
  return int64_t(mix(mix(h + a) + b));
}
double vx_uf_f64_(const char *name, int64_t a, int64_t b) { return double(vx_uf_i64_(name, a, b) >> 40) / 256; }
void vx_inv_push(bool (*)(void *), void *) {}
void vx_inv_pop() {}
void vx_assume_lazy_(bool c) { vx_assume_(c); }
void vx_rewrite_(double, double, const char *) {}
int64_t vx_split_(int64_t v, int64_t, int64_t) { return v; }
void vx_option(const char *, int64_t) {}
void vx_opaque_(void *, int64_t) {}
}

// exit: 0 nothing found, 1 failure found (record printed), 3 everything was discarded
static int run_one(void (*fn)(), std::string &label) {
  seen.clear();
  record.clear();
  failed = false;
  try {
    fn();
    if (!failed) return 0;
    label = fail_label;
    return 1;
  } catch (discard &) {
    if (!failed) return 2;
    label = fail_label;
    return 1;
  } catch (failure &f) {
    label = f.label;
    return 1;
  } catch (std::exception &e) {
    label = std::string("uncaught exception ") + typeid(e).name();
    return 1;
  } catch (...) {
    label = "uncaught exception";
    return 1;
  }
}

int main(int argc, char **argv) {
  std::string contract, replay;
  uint64_t seed = 1;
  long iters = 1000;
  double tmax = 1e9;
  long first  = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--contract") contract = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--iters") iters = atol(argv[++i]);
    else if (a == "--time") tmax = atof(argv[++i]);
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, ("vxc_" + contract).c_str());
  if (!fn) {
    fprintf(stderr, "no contract %s\n", contract.c_str());
    return 4;
  }
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r");
    if (!f) return 4;
    char line[1 << 12];
    while (fgets(line, sizeof line, f)) {
      std::string s = line;
      if (s[0] == '#') continue;
      auto p = s.find(" = ");
      if (p == std::string::npos) continue;
      while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
      fixed[s.substr(0, p)] = s.substr(p + 3);
    }
    fclose(f);
    first = fixed.count("__iter") ? atol(fixed["__iter"].c_str()) : 0;
    if (fixed.count("__seed")) seed = strtoull(fixed["__seed"].c_str(), nullptr, 10);
    iters = first + 1;
  }
  sh = (shared_t *)mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->iter = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    freopen("/dev/null", "w", stdout);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (long it = first; it < iters; ++it) {
      sh->iter = it;
      rng.seed(seed * 1000003ull + it);
      uf_salt = seed * 77777ull + it / 4;
      sh->record[0] = 0;
      sh->label[0]  = 0;
      std::string label;
      alarm(60);
      int r = run_one(fn, label);
      alarm(0);
      if (r == 2) sh->discarded++;
      sh->done++;
      if (r == 1) {
        snprintf(sh->label, sizeof sh->label, "%s", label.c_str());
        _exit(1);
      }
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > tmax) break;
    }
    for (auto &[l, c] : covers) {
      size_t n = strlen(sh->covers);
      snprintf(sh->covers + n, sizeof(sh->covers) - n, "COVER %d %s\n", c, l.c_str());
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  printf("RUNS %ld DISCARDED %ld\n", sh->done, sh->discarded);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    printf("%sOK\n", sh->covers);
    if (sh->done > 0 && sh->done == sh->discarded) return 3;
    return 0;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->label[0])
    printf("FAILED obligation: %s\n", sh->label);
  else if (sh->label[0])
    printf("FAILED obligation: %s\n", sh->label);
  else if (WIFSIGNALED(st))
    printf("FAILED obligation: run ends normally (signal %d)\n", WTERMSIG(st));
  else
    printf("FAILED obligation: run ends normally (exit %d)\n", WEXITSTATUS(st));
  printf("INPUTS seed=%llu iter=%ld\n%s", (unsigned long long)seed, sh->iter, sh->record);
  return 1;
}
