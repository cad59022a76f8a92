// Property: the Monte Carlo loop follows the Metropolis rule and keeps exact books of moves, signs and measures.
// vx-bounded: move_choice at most three moves
// vx-bounded: interrupted|failing|nothing|moved|sets_of_moves|measures at most two cycles of at most two attempts
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <iostream>
#include <iomanip>
#include <ctime>
#include <cmath>
#include <map>
#include <signal.h>
#include <string.h>
// signals are delivered by the contracts: sigaction records the handler that the real code installs
#undef sa_handler
struct vx_sigaction {
  void (*sa_handler)(int);
};
static void (*vx_signal_handler)(int) = nullptr;
static int vx_sigaction(int, struct vx_sigaction const *a, struct vx_sigaction *) {
  vx_signal_handler = a->sa_handler;
  return 0;
}
#define sigaction vx_sigaction
#include <triqs/utility/signal_handler.cpp>
#undef sigaction
#include <triqs/mc_tools/mc_generic.hpp>
using namespace triqs::mc_tools;

// any source of numbers in [0,1); the real generators are the subject of the contracts on random numbers
namespace triqs::mc_tools {
  random_generator::random_generator(std::string const &name, uint32_t) {
    _name = name;
    gen   = utility::buffered_function<double>([] { return vx::any<double>("u", 0, 1 - 1e-15); }, 1);
  }
} // namespace triqs::mc_tools

struct book {
  long in_cycle = 0;
  long attempts = 0, accepts = 0, rejects = 0;
  int last      = -1;
  double ratio = 0, answer = 0; // of the last attempt and accept
  bool pending = false;         // an attempt waits for its verdict
  double sign  = 1;
};
struct mv {
  book *b;
  int id = 0;
  double attempt() {
    vx::ensure(!b->pending, "a move is attempted only after the verdict on the previous one");
    b->pending = true;
    b->last    = id;
    b->attempts++;
    b->in_cycle++;
    b->ratio = vx::any<double>("ratio", -1e3, 1e3);
    vx::assume(b->ratio > 1e-12 || b->ratio < -1e-12 || b->ratio == 0); // smaller ratios count as zero
    return b->ratio;
  }
  double accept() {
    vx::ensure(b->pending && b->last == id, "only the attempted move is accepted");
    b->pending = false;
    b->accepts++;
    b->answer = vx::any_bool("flip") ? -1 : 1;
    b->sign *= (b->ratio < 0 ? -1 : 1) * b->answer;
    return b->answer;
  }
  void reject() {
    vx::ensure(b->pending && b->last == id, "only the attempted move is rejected");
    b->pending = false;
    b->rejects++;
  }
};

// ---------------------------------------------------------------- choice of the move
VX_CONTRACT(move_choice) {
  random_generator R{"x", 1};
  move_set<double> s{R};
  book b;
  double p[3];
  long n = vx::split(vx::any<long>("n", 1, 3), 1, 3);
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    p[i] = vx::any<double>("p", 1e-3, 100);
    sum += p[i];
    s.add(mv{&b, i}, std::string(1, char('a' + i)), p[i]);
  }
  double u = R.preview();
  double r = s.attempt();
  vx::ensure(b.attempts == 1 && b.pending, "one move is attempted");
  double lo = 0;
  for (int i = 0; i < b.last; ++i) lo += p[i];
  vx::ensure(b.last >= 0 && b.last < n, "the move is one of those registered");
  vx::ensure(vx::leq(lo, u * sum, sum) && (vx::leq(u * sum, lo + p[b.last], sum)), "moves are chosen with their proposition probabilities");
  vx::ensure(r == std::abs(b.ratio), "attempt returns the modulus of the Metropolis ratio");
  if (vx::any_bool("ok")) {
    double a = s.accept();
    vx::ensure(b.accepts == 1 && b.rejects == 0, "the move is accepted");
    if (std::abs(b.ratio) > 1e-13) vx::ensure(vx::close(a, (b.ratio < 0 ? -1 : 1) * b.answer), "accept returns the sign of the ratio times the answer of the move");
  } else {
    s.reject();
    vx::ensure(b.rejects == 1 && b.accepts == 0, "the move is rejected");
  }
  s.collect_statistics(mpi::communicator{});
  auto rates = s.get_acceptance_rates();
  vx::ensure(rates.at(std::string(1, char('a' + b.last))) == double(b.accepts), "acceptance rates are accepted over proposed moves");
  for (int i = 0; i < n; ++i) vx::ensure(s.move_vec[i].n_proposed_config() == (i == b.last) && s.move_vec[i].n_accepted_config() == (i == b.last && b.accepts), "proposals and acceptances are counted per move");
}

// ---------------------------------------------------------------- the Metropolis loop
struct counts {
  long measured = 0, aux = 0, duty = 0, stops = 0;
  bool wants_stop = false;
};
struct meas {
  book *b;
  counts *c;
  void accumulate(double s) {
    vx::ensure(!b->pending && s == b->sign, "measures see the sign of the current configuration");
    vx::ensure(c->aux == c->measured + 1 && c->duty == c->stops + 1, "the duty after the cycle and the auxiliary measures come first");
    c->measured++;
  }
  void collect_results(mpi::communicator) {}
};
struct aux {
  counts *c;
  void operator()() { c->aux++; }
};
static __attribute__((noinline)) long times(long a, long b) { return a * b; }
static void run(long N, bool measure) {
  vx::peel(4);
  book b;
  counts c;
  mc_generic<double> mc("x", 1, 0);
  mc.add_move(mv{&b, 0}, "a", 1.5);
  mc.add_move(mv{&b, 1}, "b", 0.5);
  mc.add_measure(meas{&b, &c}, "m", false);
  mc.add_measure_aux(std::make_shared<aux>(aux{&c}));
  mc.set_after_cycle_duty([&c] { c.duty++; });
  long L    = vx::any_size("length_cycle", 1, 1L << 20);
  auto stop = [&c, &b, L] {
    c.stops++;
    vx::assume(c.stops < (1L << 40)); // the run does not go on for ever
    vx::ensure(b.in_cycle == L, "every cycle makes length_cycle attempts");
    b.in_cycle = 0;
    return c.wants_stop = vx::any<long>("stop", 0, 9) == 0;
  };
  vx::invariant inv([&] {
    return c.stops >= 0 && c.stops < (N < 0 ? 1L << 40 : N) && b.in_cycle >= 0 && b.in_cycle <= L && b.attempts == times(c.stops, L) + b.in_cycle // all attempts are counted
       && b.accepts >= 0 && b.accepts <= b.attempts && b.rejects == b.attempts - b.accepts && !b.pending                                               // and have their verdict
       && b.sign == mc.sign && mc.config_id == b.attempts && c.measured == (measure ? c.duty : 0) && c.aux == c.measured && mc.nmeasures == c.measured && c.duty == c.stops && !c.wants_stop;
  });
  (void)mc.get_rng()();
  int status = mc.run(N, L, stop, measure);
  vx::ensure(b.in_cycle == 0 && b.attempts == times(c.stops, L) && b.accepts + b.rejects == b.attempts && !b.pending, "every cycle makes length_cycle attempts, each accepted or rejected");
  vx::ensure(c.duty == c.stops && c.measured == (measure ? c.stops : 0) && c.aux == c.measured, "measures once per cycle");
  vx::ensure(mc.sign == b.sign, "the sign is the product of the signs of the accepted moves");
  vx::ensure(mc.get_config_id() == int(b.attempts), "number of configurations");
  vx::ensure(mc.current_cycle_number == c.stops, "number of cycles");
  if (N >= 0) vx::ensure(c.stops <= N && (status == 0) == (c.stops == N), "status 0 exactly when all cycles are done");
  vx::ensure(status == 0 || (status == 1 && c.wants_stop), "status 1 when the callback asked to stop");
  vx::cover("end of the run");
}
VX_CONTRACT(warmup) { run(vx::any_size("n_cycles", 1, 1L << 40), false); }
VX_CONTRACT(accumulation) { run(vx::any_size("n_cycles", 1, 1L << 40), true); }
VX_CONTRACT(accumulation_without_end) { run(-vx::any_size("n_cycles", 1, 1L << 40), true); }

// ---------------------------------------------------------------- signals, exceptions, empty runs
struct visits {
  long attempts = 0, accepts = 0, rejects = 0, measured = 0, cycles = 0;
  long when = -1; // number of the attempt in which it happens
  int what  = 0;  // 1: a signal arrives, 2: the move throws
};
struct mv2 {
  visits *v;
  double attempt() {
    v->attempts++;
    if (v->attempts == v->when) {
      if (v->what == 1) vx_signal_handler(SIGTERM);
      if (v->what == 2) throw std::runtime_error("x");
    }
    return 0.5;
  }
  double accept() {
    v->accepts++;
    return 1;
  }
  void reject() { v->rejects++; }
};
struct meas2 {
  visits *v;
  void accumulate(double) { v->measured++; }
  void collect_results(mpi::communicator) {}
};
static long small(const char *name, long lo) { return vx::split(vx::any<long>(name, lo, 2), lo, 2); }
VX_CONTRACT(interrupted) {
  visits v;
  mc_generic<double> mc("x", 1, 0);
  mc.add_move(mv2{&v}, "a");
  mc.add_measure(meas2{&v}, "m", false);
  long N = small("n_cycles", 1), L = small("length", 1);
  v.what = 1;
  v.when = vx::split(vx::any<long>("when", 1, 4), 1, 4);
  int status = mc.run(N, L, [&] { v.cycles++; return false; }, true);
  if (v.when > N * L) {
    vx::ensure(status == 0 && v.attempts == N * L && v.measured == N, "without a signal the run is complete");
    vx::cover("no signal");
  } else {
    vx::ensure(v.attempts == v.when, "no move is attempted after the signal");
    vx::ensure(v.accepts + v.rejects == v.attempts, "the move under way gets its verdict");
    vx::ensure(v.measured == v.when / L, "a cycle cut short is not measured");
    // a signal in the last attempt of the last cycle comes when the run is complete
    vx::ensure(status == (v.when == N * L ? 0 : 2), "status 2 when a signal stopped the run");
    vx::ensure(!triqs::signal_handler::received(), "the signal is consumed");
    v.when = 0;
    long a = v.attempts;
    status = mc.run(1, 1, [] { return false; }, true);
    vx::ensure(status == 0 && v.attempts == a + 1, "the next run starts afresh");
    vx::cover("signal");
  }
}
VX_CONTRACT(failing) {
  visits v;
  bool rethrow = vx::split(vx::any_bool("rethrow"));
  mc_generic<double> mc("x", 1, 0, rethrow);
  mc.add_move(mv2{&v}, "a");
  mc.add_measure(meas2{&v}, "m", false);
  long N = small("n_cycles", 1), L = small("length", 1);
  mpi::has_env = vx::split(vx::any_bool("mpi"));
  v.what = 2;
  v.when = vx::split(vx::any<long>("when", 1, 4), 1, 4);
  vx::assume(v.when <= N * L);
  bool thrown = vx::throws([&] { mc.run(N, L, [] { return false; }, true); });
  if (rethrow) {
    vx::ensure(thrown, "an exception in a move stops the run with an exception");
    vx::ensure(v.attempts == v.when && v.measured == (v.when - 1) / L, "nothing happens after the exception");
  }
  vx::ensure(v.accepts + v.rejects <= v.attempts, "verdicts");
}
VX_CONTRACT(nothing) {
  visits v;
  mc_generic<double> mc("x", 1, 0);
  mc.add_move(mv2{&v}, "a");
  mc.add_measure(meas2{&v}, "m", false);
  double sign = vx::any_bool("sign") ? -1 : 1;
  long N      = small("n_cycles", 1);
  bool w      = vx::split(vx::any_bool("warmup"));
  int status  = w ? mc.warmup(0, 1, [] { return false; }, sign) : mc.accumulate(0, 1, [] { return false; });
  vx::ensure(status == 0 && v.attempts == 0 && v.measured == 0 && mc.get_config_id() == 0, "a run of zero cycles does nothing");
  double t = w ? mc.get_warmup_time() : mc.get_accumulation_time();
  vx::ensure(t == 0, "and takes no time");
  if (w) vx::ensure(mc.sign == sign, "the sign is the initial one");
  status = mc.warmup_and_accumulate(0, N, 2, [] { return false; }, sign);
  vx::ensure(status == 0 && v.attempts == 2 * N && v.measured == N && mc.sign == sign, "warmup is not measured");
  h5::group g = h5::file("t.h5", 'w');
  h5_write(g, "mc", mc);
  mc_generic<double> mc2("x", 1, 0);
  h5_read(g, "mc", mc2);
  vx::ensure(mc2.sign == sign && mc2.get_current_cycle_number() == mc.get_current_cycle_number() && mc2.nmeasures == N, "a stored simulation keeps its counters");
}
VX_CONTRACT(moved) {
  visits v;
  auto mk = [&] {
    auto p = std::make_unique<mc_generic<double>>("x", 1, 0);
    p->add_move(mv2{&v}, "a");
    p->add_measure(meas2{&v}, "m", false);
    return p;
  };
  auto p = mk();
  long N = small("n_cycles", 1);
  auto &rng = p->get_rng();
  mc_generic<double> mc{std::move(*p)};
  p.reset();
  double u = rng();
  vx::ensure(u >= 0 && u < 1, "the random generator of a moved simulation stays in place");
  int status = mc.run(N, 2, [] { return false; }, true);
  vx::ensure(status == 0 && v.attempts == 2 * N && v.measured == N && v.accepts + v.rejects == 2 * N, "a moved simulation runs");
}

// ---------------------------------------------------------------- sets of moves as moves; sets of measures
VX_CONTRACT(sets_of_moves) {
  random_generator R{"x", 1};
  book b;
  move_set<double> in{R}, out{R};
  in.add(mv{&b, 0}, "a", 1);
  in.add(mv{&b, 1}, "b", 1);
  out.add(std::move(in), "set", 3);
  out.add(mv{&b, 2}, "c", 1);
  double u = R.preview();
  double r = out.attempt();
  vx::ensure((b.last < 2) == (u < 0.75), "the set is chosen with its probability");
  vx::ensure(vx::close(r, std::abs(b.ratio)), "attempt returns the modulus of the ratio of the move inside");
  if (vx::any_bool("ok")) {
    double s = out.accept();
    vx::ensure(b.accepts == 1 && b.rejects == 0, "accepted once");
    if (b.last == 2 && b.ratio != 0) vx::ensure(vx::close(s, (b.ratio < 0 ? -1 : 1) * b.answer), "sign of a move");
    if (b.last < 2 && b.ratio != 0) vx::ensure(vx::close(s, (b.ratio < 0 ? -1 : 1) * b.answer), "sign of a move in a set");
  } else {
    out.reject();
    vx::ensure(b.accepts == 0 && b.rejects == 1, "rejected once");
  }
  out.collect_statistics(mpi::communicator{});
  auto rates = out.get_acceptance_rates();
  vx::ensure(rates.size() == 4 && rates.count("set") == 1 && rates.count("a") == 1 && rates.count("b") == 1 && rates.count("c") == 1, "acceptance rates of all moves");
  static const char *names[] = {"a", "b", "c"};
  vx::ensure(rates.at(names[b.last]) == double(b.accepts), "rate of the chosen move");
  if (b.last < 2) vx::ensure(rates.at("set") == double(b.accepts), "rate of the set");
  out.clear_statistics();
  for (auto &m : out.move_vec) {
    vx::ensure(m.n_proposed_config() == 0 && m.n_accepted_config() == 0 && m.acceptance_rate() == -1, "clear");
    if (auto *ms = m.as_move_set()) for (auto &k : ms->move_vec) vx::ensure(k.n_proposed_config() == 0 && k.n_accepted_config() == 0, "clear the moves in the set");
  }
  move_set<double> empty{R};
}

struct note {
  long *log, *n;
  int id;
  void accumulate(double s) { log[(*n)++] = id * 10 + (s < 0 ? 1 : 0); }
  void collect_results(mpi::communicator) { log[(*n)++] = 100 + id; }
};
VX_CONTRACT(measures) {
  long log[12], n = 0;
  measure_set<double> s;
  auto a = s.insert(note{log, &n, 1}, "a", false, false);
  auto b = s.insert(note{log, &n, 2}, "b", true, false);
  vx::ensure(s.has("a") && s.has("b") && !s.has("c") && s.names() == std::vector<std::string>{"a", "b"}, "names of the measures");
  vx::ensure(vx::throws([&] { s.insert(note{log, &n, 3}, "a", false, false); }), "a name is used once");
  long neg = vx::any_bool("negative");
  s.accumulate(neg ? -1. : 1.);
  vx::ensure(n == 2 && log[0] == 10 + neg && log[1] == 20 + neg, "every measure is called once with the sign");
  vx::ensure(a->second.count() == 1 && b->second.count() == 1, "calls are counted");
  s.collect_results({});
  vx::ensure(n == 4 && log[2] == 101 && log[3] == 102, "every measure is collected once");
  s.remove(a);
  s.accumulate(1.);
  vx::ensure(n == 5 && log[4] == 20 && !s.has("a") && b->second.count() == 2, "a removed measure is not called");
  s.clear();
  s.accumulate(1.);
  vx::ensure(n == 5 && s.names().empty(), "all measures are removed");
}
// statistics over several processes
VX_CONTRACT(rates_of_processes) {
  random_generator R{"x", 1};
  book b;
  std::vector<move_set<double>> s;
  double acc[2] = {0, 0}, prop[2] = {0, 0}, ia = 0, ip = 0;
  for (int r = 0; r < 2; ++r) {
    move_set<double> in{R};
    in.add(mv{&b, 0}, "in", 1);
    s.emplace_back(R);
    s[r].add(std::move(in), "set", 3);
    s[r].add(mv{&b, 1}, "m", 1);
    for (int k = 0; k < 2; ++k) {
      s[r].move_vec[k].NProposed = vx::any<long>("proposed", 1, 1L << 40);
      s[r].move_vec[k].Naccepted = vx::any<long>("accepted", 0, 1L << 40);
      acc[k] += double(s[r].move_vec[k].Naccepted), prop[k] += double(s[r].move_vec[k].NProposed);
    }
    auto &m = s[r].move_vec[0].as_move_set()->move_vec[0];
    m.NProposed = vx::any<long>("proposed", 1, 1L << 40), m.Naccepted = vx::any<long>("accepted", 0, 1L << 40);
    ia += double(m.Naccepted), ip += double(m.NProposed);
  }
  bool agree = mpi::run_processes(2, [&](mpi::communicator c) {
    s[c.rank()].collect_statistics(c);
    auto rates = s[c.rank()].get_acceptance_rates();
    vx::ensure(vx::close(rates.at("set") * prop[0], acc[0]) && vx::close(rates.at("m") * prop[1], acc[1]), "acceptance rate over all processes");
    vx::ensure(vx::close(rates.at("in") * ip, ia), "also of the moves in a set");
  });
  vx::ensure(agree, "all processes take part");
  s[0].clear_statistics();
  for (auto &m : s[0].move_vec) {
    vx::ensure(m.n_proposed_config() == 0 && m.n_accepted_config() == 0, "clear");
    if (auto *ms = m.as_move_set()) vx::ensure(ms->move_vec[0].n_proposed_config() == 0 && ms->move_vec[0].n_accepted_config() == 0, "clear a move in a set");
  }
}
