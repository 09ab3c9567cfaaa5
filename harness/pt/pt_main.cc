// Evaluates the pointwise classes of one equation (Riemann solver, limiter, state algebra) exactly.
//   pt DIM PRM IN OUT
// IN holds one command per line, OUT one JSON record per line and command.  Numbers are C99 hexadecimal
// on input and "m b e" on output.
#include <instantiate.h>
#include "stack.h"
#include "exact.h"
#include <fstream>
#include <iostream>

using namespace ryujin;
using namespace dealii;
using verif::ex;

template <typename T, typename = void>
struct has_primitive : std::false_type {};
template <typename T>
struct has_primitive<T, std::void_t<typename T::primitive_type>> : std::true_type {};
template <typename T, typename = void>
struct has_equilibrated : std::false_type {};
template <typename T>
struct has_equilibrated<T, std::void_t<decltype(std::declval<T>().equilibrated_states(
                               std::declval<typename T::flux_contribution_type>(),
                               std::declval<typename T::flux_contribution_type>()))>> : std::true_type {};

/* calls f(view) and prints the result if that is a valid expression */
template <typename F, typename V>
constexpr bool valid = std::is_invocable_v<F, V &>;
#define CALL(expr) [&](auto &v) -> decltype(v.expr) { return v.expr; }

template <int dim>
struct Pt {
  using S = verif::Stack<Description, dim>;
  using View = typename S::View;
  using RiemannSolver = typename Description::template RiemannSolver<dim, NUMBER>;
  using Limiter = typename Description::template Limiter<dim, NUMBER>;
  static constexpr unsigned int N = S::problem_dimension;
  using state_type = typename S::state_type;
  using vec = Tensor<1, dim, NUMBER>;

  S st;
  typename RiemannSolver::Parameters riemann_parameters;
  typename Limiter::Parameters limiter_parameters;
  typename S::StateVector U;
  typename View::InitialPrecomputedVector initial_precomputed;
  std::ofstream out;
  std::istringstream is;

  Pt(const MPI_Comm &comm)
      : st(comm)
      , riemann_parameters("/F - HyperbolicModule/riemann solver")
      , limiter_parameters("/F - HyperbolicModule/limiter")
  {
  }

  double number()
  {
    std::string s;
    is >> s;
    return std::strtod(s.c_str(), nullptr);
  }
  unsigned int integer() { return (unsigned int)number(); }
  state_type state()
  {
    state_type r;
    for (unsigned int d = 0; d < N; ++d)
      r[d] = number();
    return r;
  }
  vec vector()
  {
    vec r;
    for (int d = 0; d < dim; ++d)
      r[d] = number();
    return r;
  }
  template <typename T>
  void list(const char *name, const T &v, unsigned int n)
  {
    out << ",\"" << name << "\":[";
    for (unsigned int d = 0; d < n; ++d)
      out << (d ? "," : "") << ex(v[d]);
    out << "]";
  }

  void value(const char *name, double v) { out << ",\"" << name << "\":" << ex(v); }
  void value(const char *name, bool v) { out << ",\"" << name << "\":" << (v ? "true" : "false"); }
  template <int r, typename T>
  void value(const char *name, const Tensor<1, r, T> &v)
  {
    if constexpr (std::is_same_v<T, NUMBER>)
      list(name, v, r);
    else {
      out << ",\"" << name << "\":[";
      for (int k = 0; k < r; ++k)
        for (int d = 0; d < dim; ++d)
          out << (d ? "," : k ? ",[" : "[") << ex(v[k][d]) << (d == dim - 1 ? "]" : "");
      out << "]";
    }
  }
  template <typename V, typename F>
  void put(const char *name, V &view, const F &f)
  {
    if constexpr (std::is_invocable_v<F, V &>)
      value(name, f(view));
  }

  template <typename V>
  void algebra(V &w, const state_type &u)
  {
    put("rho", w, CALL(density(u)));
    put("rho", w, CALL(water_depth(u)));
    put("m", w, CALL(momentum(u)));
    put("E", w, CALL(total_energy(u)));
    put("e", w, CALL(internal_energy(u)));
    put("de", w, CALL(internal_energy_derivative(u)));
    put("p", w, CALL(pressure(u)));
    put("c", w, CALL(speed_of_sound(u)));
    put("s", w, CALL(specific_entropy(u)));
    put("harten", w, CALL(harten_entropy(u)));
    put("dharten", w, CALL(harten_entropy_derivative(u)));
    put("eta", w, CALL(mathematical_entropy(u)));
    put("deta", w, CALL(mathematical_entropy_derivative(u)));
    put("kinetic", w, CALL(kinetic_energy(u)));
    put("sq", w, CALL(square_entropy(u[0])));
    put("dsq", w, CALL(square_entropy_derivative(u[0])));
    put("ok", w, CALL(is_admissible(u)));
    put("flux", w, CALL(f(u)));
    put("advective", w, CALL(g(u)));
    put("flux", w, CALL(flux_function(u[0])));
    put("dflux", w, CALL(flux_gradient_function(u[0])));
    put("prim", w, CALL(to_primitive_state(u)));
    put("back", w, CALL(from_primitive_state(v.to_primitive_state(u))));
    const double k = 0.25;
    put("kruzkov", w, CALL(kruzkov_entropy(k, u[0])));
    put("dkruzkov", w, CALL(kruzkov_entropy_derivative(k, u[0])));
    const double rho = u[0], g1 = 1.375;
    if constexpr (N == dim + 2) {
      const double e = (u[N - 1] - 0.5 * [&] { double q = 0; for (int d = 0; d < dim; ++d) q += u[1 + d] * u[1 + d]; return q; }() / rho) / rho;
      put("eos_p", w, CALL(eos_pressure(rho, e)));
      put("eos_T", w, CALL(eos_temperature(rho, e)));
      put("eos_c", w, CALL(eos_speed_of_sound(rho, e)));
      put("eos_e", w, CALL(eos_specific_internal_energy(rho, v.eos_pressure(rho, e))));
      put("flux", w, CALL(f(u, v.eos_pressure(rho, e))));
      put("sgamma", w, CALL(surrogate_gamma(u, v.eos_pressure(rho, e))));
      put("sp", w, CALL(surrogate_pressure(u, g1)));
      put("ss", w, CALL(surrogate_specific_entropy(u, g1)));
      put("sh", w, CALL(surrogate_harten_entropy(u, g1)));
      put("dsh", w, CALL(surrogate_harten_entropy_derivative(u, v.surrogate_harten_entropy(u, g1), g1)));
    }
  }

  void run(const std::string &prm, const std::string &in, const std::string &o)
  {
    ParameterAcceptor::initialize(prm);
    st.prepare("base");
    Vectors::reinit_state_vector<Description>(U, st.offline_data);
    if constexpr (View::n_initial_precomputed_values > 0)
      initial_precomputed = st.initial_values.interpolate_initial_precomputed_vector();
    out.open(o);
    const auto view = st.hyperbolic_system.template view<dim, NUMBER>();
    auto &V = std::get<0>(U);
    auto &pre = std::get<1>(U);
    const unsigned int n = st.offline_data.n_locally_relevant();

    std::ifstream input(in);
    std::string line, command;
    while (std::getline(input, line)) {
      is.clear();
      is.str(line);
      if (!(is >> command))
        continue;
      out << "{\"e\":\"" << command << "\"";
      if (command == "nodes") { /* nodes K state...: node i has state i mod K */
        const unsigned int k = integer();
        std::vector<state_type> s(k);
        for (auto &x : s)
          x = state();
        for (unsigned int i = 0; i < n; ++i)
          V.write_tensor(s[i % k], i);
        st.hyperbolic_module.prepare_state_vector(U, 0.);
        using pst = typename View::precomputed_type;
        out << ",\"n\":" << n << ",\"prec\":[";
        for (unsigned int i = 0; i < std::min(n, k); ++i) {
          const auto p = pre.template get_tensor<NUMBER, pst>(i);
          out << (i ? ",[" : "[");
          for (unsigned int d = 0; d < View::n_precomputed_values; ++d)
            out << (d ? "," : "") << ex(p[d]);
          out << "]";
        }
        out << "],\"changed\":";
        bool same = true;
        for (unsigned int i = 0; i < std::min(n, k); ++i)
          same &= V.get_tensor(i) == s[i];
        out << (same ? "false" : "true");
      } else if (command == "rp") { /* primitive data of both sides */
        RiemannSolver rs(st.hyperbolic_system, riemann_parameters, pre);
        if constexpr (has_primitive<RiemannSolver>::value) {
          typename RiemannSolver::primitive_type a, b;
          for (auto &x : a)
            x = number();
          for (auto &x : b)
            x = number();
          out << ",\"lambda\":" << ex(rs.compute(a, b));
        }
      } else if (command == "rs") { /* i j n */
        const unsigned int i = integer(), j = integer();
        const vec d = vector();
        RiemannSolver rs(st.hyperbolic_system, riemann_parameters, pre);
        out << ",\"lambda\":" << ex(rs.compute(V.get_tensor(i), V.get_tensor(j), i, &j, d));
      } else if (command == "row") { /* i hd n (j c)*: bounds without and with relaxation */
        const unsigned int i = integer();
        const double hd = number();
        const unsigned int m = integer();
        Limiter limiter(st.hyperbolic_system, limiter_parameters, pre);
        const auto flux_i = view.flux_contribution(pre, initial_precomputed, i, V.get_tensor(i));
        limiter.reset(i, V.get_tensor(i), flux_i);
        for (unsigned int k = 0; k < m; ++k) {
          const unsigned int j = integer();
          const vec c = vector();
          const auto flux_j = view.flux_contribution(pre, initial_precomputed, &j, V.get_tensor(j));
          if constexpr (has_equilibrated<View>::value) {
            const auto ab = view.equilibrated_states(flux_i, flux_j);
            limiter.accumulate(V.get_tensor(j), std::get<0>(ab), std::get<1>(ab), c, state_type());
          } else
            limiter.accumulate(&j, V.get_tensor(j), flux_j, c, state_type());
        }
        list("bounds", limiter.bounds(0.), Limiter::n_bounds);
        list("relaxed", limiter.bounds(hd), Limiter::n_bounds);
      } else if (command == "combine") {
        typename Limiter::Bounds a, b;
        for (auto &x : a)
          x = number();
        for (auto &x : b)
          x = number();
        list("bounds", Limiter::combine_bounds(a, b), Limiter::n_bounds);
      } else if (command == "limit") { /* bounds U P t_min t_max */
        typename Limiter::Bounds b;
        for (auto &x : b)
          x = number();
        const auto u = state(), p = state();
        const double lo = number(), hi = number();
        Limiter limiter(st.hyperbolic_system, limiter_parameters, pre);
        const auto [t, success] = limiter.limit(b, u, p, lo, hi);
        out << ",\"t\":" << ex(t) << ",\"ok\":" << (success ? "true" : "false");
      }
      else if (command == "alg") { /* U */
        const auto u = state();
        algebra(view, u);
      } else if (command == "prim") { /* primitive state, initial state, the same of one dimension */
        const auto w = state();
        value("U", view.from_primitive_state(w));
        put("init", view, CALL(from_initial_state(w)));
        if constexpr (dim > 1) {
          using View1 = typename Description::template HyperbolicSystemView<1, NUMBER>;
          typename View1::state_type w1;
          for (unsigned int d = 0; d < View1::problem_dimension; ++d)
            w1[d] = d + 1 == View1::problem_dimension && d > 1 ? w[N - 1] : w[d];
          value("expand", view.expand_state(w1));
        }
      } else if (command == "galilei") { /* U M: replaces the momentum */
        const auto u = state();
        const vec q = vector();
        vec seen;
        const auto r = view.apply_galilei_transform(u, [&](const auto &m) {
          if constexpr (std::is_same_v<std::decay_t<decltype(m)>, vec>)
            seen = m;
          return q;
        });
        value("seen", seen);
        value("U", r);
      } else if (command == "bc") { /* id U n D */
        const unsigned int id = integer();
        const auto u = state();
        const vec normal = vector();
        const auto d = state();
        unsigned int calls = 0;
        std::string error;
        state_type r;
        try {
          r = view.apply_boundary_conditions(id, u, normal, [&]() { ++calls; return d; });
        } catch (std::exception &) {
          error = "exception";
        }
        out << ",\"calls\":" << calls << ",\"error\":\"" << error << "\"";
        value("U", r);
        put("c", view, CALL(speed_of_sound(u)));
        put("cd", view, CALL(speed_of_sound(d)));
        put("cr", view, CALL(speed_of_sound(r)));
      }
      out << "}\n";
    }
    out << "{\"e\":\"end\"}\n";
  }
};

template <int dim>
void go(char **argv)
{
  Pt<dim> pt(MPI_COMM_WORLD);
  pt.run(argv[2], argv[3], argv[4]);
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  switch (std::atoi(argv[1])) {
  case VDIM: go<VDIM>(argv); break;
#ifdef VDIM2
  case VDIM2: go<VDIM2>(argv); break;
#endif
#ifdef VDIM3
  case VDIM3: go<VDIM3>(argv); break;
#endif
  }
}
