// Stand-in for the external dependency TRIQS/mpi: a communicator with one process (documented single-process behaviour).
#pragma once
#include <complex>
#include <vector>
#include <string>
#include <array>
#include <type_traits>
#include <utility>
using MPI_Op = int;
using MPI_Comm = int;
inline constexpr MPI_Op MPI_SUM = 1, MPI_MAX = 2, MPI_MIN = 3, MPI_LAND = 4, MPI_LOR = 5;
inline constexpr int MPI_UNDEFINED = -1;

namespace mpi {
  inline bool has_env         = false;
  inline bool is_initialized() { return false; }
  // ---- simulation of several processes. Each process runs the (deterministic) program from the start; the first collective
  // call whose outcome is not known yet records the contribution of the process and ends its pass. Once all members of the
  // communicator have contributed, the next pass replays the outcome. Only contracts use this.
  struct msg {
    std::vector<long> l;
    std::vector<double> d;
  };
  struct pending {};
  struct group {
    std::vector<int> members; // global ranks
    std::vector<std::vector<msg>> done;
    std::vector<msg> wait;
    std::vector<char> has;
    std::vector<size_t> pos;  // of each member
  };
  struct simulation {
    std::vector<group> groups;
    std::vector<std::array<long, 3>> ids; // parent group, position of the split, color
    int me = 0;
  };
  inline simulation *sim = nullptr;
  struct communicator {
    long rank_ = 0, size_ = 1, id_ = 0; // (not int: packing two of them in a word is hard for the verifier)
    bool null_ = false;
    [[nodiscard]] int rank() const { return int(rank_); }
    [[nodiscard]] int size() const { return int(size_); }
    [[nodiscard]] communicator split(int color, int key = 0) const;
    void barrier() const {}
    void abort(int) const {}
    bool is_null() const { return null_; }
    MPI_Comm get() const { return int(id_); }
  };
  template <typename T> inline constexpr bool is_cplx = false;
  template <typename T> inline constexpr bool is_cplx<std::complex<T>> = true;
  template <typename T> void put(msg &m, T const &x) {
    if constexpr (std::is_integral_v<T> or std::is_enum_v<T>)
      m.l.push_back(long(x));
    else if constexpr (std::is_floating_point_v<T>)
      m.d.push_back(x);
    else if constexpr (is_cplx<T>) {
      m.d.push_back(x.real());
      m.d.push_back(x.imag());
    } else {
      m.l.push_back(long(x.size()));
      for (auto const &y : x) put(m, y);
    }
  }
  struct reader {
    msg const &m;
    size_t il = 0, id = 0;
    template <typename T> void get(T &x) {
      if constexpr (std::is_integral_v<T> or std::is_enum_v<T>)
        x = T(m.l[il++]);
      else if constexpr (std::is_floating_point_v<T>)
        x = m.d[id++];
      else if constexpr (is_cplx<T>) {
        x = T(m.d[id], m.d[id + 1]);
        id += 2;
      } else {
        long n = m.l[il++];
        if constexpr (requires { typename T::allocator_type; })
          x.resize(n);
        else if (long(x.size()) != n)
          x.resize(std::array<long, 1>{n});
        for (auto &y : x) get(y);
      }
    }
  };
  inline std::vector<msg> const &exchange(communicator const &c, msg m) {
    group &g = sim->groups[c.id_];
    size_t p = g.pos[c.rank_]++;
    if (p < g.done.size()) return g.done[p];
    g.wait[c.rank_] = m;
    g.has[c.rank_]  = 1;
    throw pending{};
  }
  template <typename T> msg pack(T const &x) {
    msg m;
    put(m, x);
    return m;
  }
  template <typename T> T unpack(msg const &m, T like) {
    reader{m}.get(like);
    return like;
  }
  inline int add_group(std::array<long, 3> id, std::vector<int> const &members) {
    for (size_t k = 0; k < sim->ids.size(); ++k)
      if (sim->ids[k] == id) return int(k);
    sim->ids.push_back(id);
    group g;
    g.members = members;
    g.wait.resize(members.size());
    g.has.resize(members.size(), 0);
    g.pos.resize(members.size(), 0);
    sim->groups.push_back(g);
    return int(sim->groups.size()) - 1;
  }
  inline communicator communicator::split(int color, int key) const {
    if (!sim) return *this;
    long at = long(sim->groups[id_].pos[rank_]);
    std::vector<msg> all = exchange(*this, pack(std::vector<long>{color, key}));
    communicator r;
    if (color == MPI_UNDEFINED) {
      r.null_ = true;
      return r;
    }
    std::vector<std::array<long, 2>> in; // key, rank
    for (int k = 0; k < size_; ++k)
      if (all[k].l[1] == color) {
        std::array<long, 2> e{all[k].l[2], k};
        size_t q = 0;
        while (q < in.size() && in[q][0] <= e[0]) ++q;
        in.insert(in.begin() + q, e);
      }
    std::vector<int> members;
    for (size_t k = 0; k < in.size(); ++k) {
      members.push_back(sim->groups[id_].members[in[k][1]]);
      if (in[k][1] == rank_) r.rank_ = int(k);
    }
    r.size_ = int(in.size());
    r.id_   = add_group({long(id_), at, color}, members);
    return r;
  }
  // run f(communicator) on n processes; false if they do not agree on the collective calls
  template <typename F> bool run_processes(int n, F f) {
    simulation s;
    sim = &s;
    std::vector<int> w;
    for (int k = 0; k < n; ++k) w.push_back(k);
    add_group({-1, 0, 0}, w);
    bool ok = false;
    for (int pass = 0; pass < 60; ++pass) {
      int finished = 0;
      for (int r = 0; r < n; ++r) {
        for (auto &g : s.groups)
          for (size_t k = 0; k < g.members.size(); ++k)
            if (g.members[k] == r) g.pos[k] = 0;
        s.me = r;
        try {
          communicator c;
          c.rank_ = r, c.size_ = n;
          f(c);
          ++finished;
        } catch (pending const &) {}
      }
      if (finished == n) {
        ok = true;
        break;
      }
      bool progress = false;
      for (auto &g : s.groups) {
        bool all = true;
        for (char h : g.has) all = all && h;
        if (!all) continue;
        g.done.push_back(g.wait);
        for (char &h : g.has) h = 0;
        progress = true;
      }
      if (!progress) break;
    }
    for (auto &g : s.groups)
      for (size_t k = 0; k < g.members.size(); ++k) ok = ok && g.pos[k] == g.done.size();
    sim = nullptr;
    return ok;
  }
  struct environment {
    environment(int, char **) {}
  };
  struct monitor {
    communicator c;
    bool local = false;
    explicit monitor(communicator x) : c(x) {}
    void report_local_event() { local = true; }
    [[nodiscard]] bool event_on_any_rank() const { return local; }
    [[nodiscard]] bool some_event_on_rank() const { return local; }
    void request_emergency_stop() { local = true; }
    [[nodiscard]] bool emergency_occured() const { return local; }
    void finalize_communications() {}
  };
  namespace tag {
    struct reduce {};
    struct scatter {};
    struct gather {};
  } // namespace tag
  template <typename Tag, typename T> struct lazy {
    T rhs;
    communicator c;
    int root  = 0;
    bool all  = false;
    MPI_Op op = MPI_SUM;
  };
  inline void broadcast_unused() {}
  namespace details {
    template <typename T> void combine(T &a, T const &b, MPI_Op op) {
      if constexpr (std::is_arithmetic_v<T> or is_cplx<T>) {
        if (op == MPI_SUM) a += b;
        if constexpr (std::is_arithmetic_v<T>) {
          if (op == MPI_MAX) a = a < b ? b : a;
          if (op == MPI_MIN) a = b < a ? b : a;
          if (op == MPI_LAND) a = a && b;
          if (op == MPI_LOR) a = a || b;
        }
      } else if constexpr (requires { typename T::allocator_type; }) {
        for (size_t i = 0; i < a.size(); ++i) combine(a[i], b[i], op);
      } else
        a += b;
    }
  } // namespace details
  template <typename T> void broadcast(T &x, communicator const &c = {}, int root = 0) {
    if (!sim) return;
    auto const &all = exchange(c, pack(x));
    if (c.rank() != root) x = unpack(all[root], x);
  }
  template <typename T> auto reduce(T const &x0, communicator const &c = {}, int root = 0, bool everywhere = false, MPI_Op op = MPI_SUM) {
    auto x = [&] {
      if constexpr (requires { typename T::regular_type; })
        return typename T::regular_type(x0);
      else
        return x0;
    }();
    if (!sim) return x;
    auto const &all = exchange(c, pack(x));
    if (!everywhere && c.rank() != root) return x; // unspecified on the other processes
    auto r = unpack(all[0], x);
    for (int k = 1; k < c.size(); ++k) details::combine(r, unpack(all[k], x), op);
    return r;
  }
  template <typename T> auto all_reduce(T const &x, communicator const &c = {}, MPI_Op op = MPI_SUM) { return reduce(x, c, 0, true, op); }
  template <typename T> void reduce_in_place(T &x, communicator const &c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if (sim) x = reduce(x, c, root, all, op);
  }
  template <typename T> void all_reduce_in_place(T &x, communicator const &c = {}, MPI_Op op = MPI_SUM) {
    if (sim) x = reduce(x, c, 0, true, op);
  }
  template <typename T> std::vector<T> all_gather(T const &x, communicator const &c = {}) {
    if (!sim) return {x};
    auto const &all = exchange(c, pack(x));
    std::vector<T> r;
    for (int k = 0; k < c.size(); ++k) r.push_back(unpack(all[k], x));
    return r;
  }
  template <typename T> std::vector<T> all_gather(std::vector<T> const &x, communicator const &c = {}) {
    if (!sim) return x;
    auto const &all = exchange(c, pack(x));
    std::vector<T> r;
    for (int k = 0; k < c.size(); ++k)
      for (auto const &y : unpack(all[k], x)) r.push_back(y);
    return r;
  }
  // one process only
  template <typename T> T scatter(T const &x, communicator const & = {}, int = 0, bool = false) { return x; }
  template <typename T> T gather(T const &x, communicator const & = {}, int = 0, bool = false) { return x; }
} // namespace mpi
