// Drives the real modules of one equation and records everything with exact numbers.
//   sim DIM PRM OUT COMMAND...
// Every process writes OUT.<rank> with one JSON record per line.  Numbers are strings "m b e"
// (m * 2^e).  States are listed by owned degree of freedom in the order of the "offline" record.
#include <instantiate.h>
#include "stack.h"
#include "exact.h"
#include <deal.II/base/multithread_info.h>
#include <omp.h>
#include <fstream>
#include <iostream>

using namespace ryujin;
using namespace dealii;
using verif::ex;

static std::ofstream out;

static std::vector<std::string> split(const std::string &s, char c = ':')
{
  std::vector<std::string> r;
  std::string x;
  std::istringstream is(s);
  while (std::getline(is, x, c))
    r.push_back(x);
  return r;
}

/* hash of (position, seed, k) in [0,1), independent of the distribution of nodes */
template <int dim>
double rnd(const Point<dim> &x, unsigned long seed, unsigned long k)
{
  unsigned long h = 0x9E3779B97F4A7C15ul * (seed + 1) + 0xD1B54A32D192ED03ul * (k + 1);
  const auto mix = [&](unsigned long v) {
    h ^= v;
    h ^= h >> 30;
    h *= 0xBF58476D1CE4E5B9ul;
    h ^= h >> 27;
    h *= 0x94D049BB133111EBul;
    h ^= h >> 31;
  };
  for (int d = 0; d < dim; ++d)
    mix((unsigned long)(long)std::llround(x[d] * 1048576.));
  mix(k);
  return (h >> 11) * (1. / 9007199254740992.);
}

template <int dim>
struct Sim {
  using S = verif::Stack<Description, dim>;
  using View = typename S::View;
  static constexpr unsigned int N = S::problem_dimension;
  using state_type = typename S::state_type;

  using RiemannSolver = typename Description::template RiemannSolver<dim, NUMBER>;

  S st;
  typename RiemannSolver::Parameters riemann_parameters;
  typename S::StateVector U, temp[3];
  std::vector<Point<dim>> points;
  std::vector<Point<dim>> seeds; /* distinct for the copies of a node in different cells */
  double t = 0.;
  std::vector<double> bottom;
#ifdef WITH_QUANTITIES
  Quantities<Description, dim, NUMBER> quantities;
#endif

  Sim(const MPI_Comm &comm)
      : st(comm)
      , riemann_parameters("/F - HyperbolicModule/riemann solver")
#ifdef WITH_QUANTITIES
      , quantities(st.comm, st.offline_data, st.hyperbolic_system, st.parabolic_system, "/K - Quantities")
#endif
  {
  }

  void reinit(typename S::StateVector &s)
  {
    Vectors::reinit_state_vector<Description>(s, st.offline_data);
  }

  void state(std::ostream &o, const typename S::StateVector &s)
  {
    const auto &V = std::get<0>(s);
    o << "[";
    bool first = true;
    for (unsigned int i = 0; i < st.offline_data.n_locally_owned(); ++i) {
      if (constrained(i))
        continue;
      const auto U_i = V.get_tensor(i);
      o << (first ? "[" : ",[");
      first = false;
      for (unsigned int d = 0; d < N; ++d)
        o << (d ? "," : "") << ex(U_i[d]);
      o << "]";
    }
    o << "]";
  }

  /* precomputed values of owned nodes; ghosts: global index, state, precomputed values */
  void precomputed()
  {
    const auto &od = st.offline_data;
    const auto &part = *od.scalar_partitioner();
    const auto &V = std::get<0>(U);
    const auto &C = std::get<1>(U);
    const auto values = [&](unsigned int i) {
      const auto c = C.get_tensor(i);
      out << "[";
      for (unsigned int d = 0; d < View::n_precomputed_values; ++d)
        out << (d ? "," : "") << ex(c[d]);
      out << "]";
    };
    bool first = true;
    out << ",\"pc\":[";
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      if (constrained(i))
        continue;
      out << (first ? "" : ",");
      first = false;
      values(i);
    }
    out << "],\"ghost\":[";
    for (unsigned int i = od.n_locally_owned(); i < od.n_locally_relevant(); ++i) {
      const auto U_i = V.get_tensor(i);
      out << (i > od.n_locally_owned() ? "," : "") << "[" << part.local_to_global(i) << ",[";
      for (unsigned int d = 0; d < N; ++d)
        out << (d ? "," : "") << ex(U_i[d]);
      out << "],";
      values(i);
      out << "]";
    }
    out << "]";
  }

  bool constrained(unsigned int i)
  {
    return st.offline_data.sparsity_pattern_simd().row_length(i) == 1;
  }

  void offline()
  {
    const auto &od = st.offline_data;
    const auto &sp = od.sparsity_pattern_simd();
    const auto &part = *od.scalar_partitioner();
    const unsigned int n_int = od.n_locally_internal();
    const unsigned int simd = VectorizedArray<NUMBER>::size();
    const bool dg = od.discretization().have_discontinuous_ansatz();
    out << "{\"e\":\"offline\",\"nexport\":" << od.n_export_indices()
        << ",\"ninternal\":" << n_int << ",\"nowned\":" << od.n_locally_owned()
        << ",\"nrelevant\":" << od.n_locally_relevant() << ",\"simd\":" << simd
        << ",\"measure\":" << ex(od.measure_of_omega()) << ",\"dg\":" << (dg ? "true" : "false")
        << ",\"rows\":[";
    bool first = true;
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      if (constrained(i))
        continue;
      out << (first ? "" : ",\n") << "{\"l\":" << i << ",\"g\":" << part.local_to_global(i) << ",\"x\":[";
      first = false;
      for (int d = 0; d < dim; ++d)
        out << (d ? "," : "") << ex(points[i][d]);
      out << "],\"s\":[";
      for (int d = 0; d < dim; ++d)
        out << (d ? "," : "") << ex(seeds[i][d]);
      out << "],\"m\":" << ex(od.lumped_mass_matrix().local_element(i))
          << ",\"minv\":" << ex(od.lumped_mass_matrix_inverse().local_element(i));
      std::ostringstream J, C, M, T, B;
      const unsigned int *js = sp.columns(i);
      for (unsigned int c = 0; c < sp.row_length(i); ++c) {
        const unsigned int j = *(i < n_int ? js + c * simd : js + c);
        const auto cij = od.cij_matrix().get_tensor(i, c);
        J << (c ? "," : "") << part.local_to_global(j);
        C << (c ? ",[" : "[");
        for (int d = 0; d < dim; ++d)
          C << (d ? "," : "") << ex(cij[d]);
        C << "]";
        M << (c ? "," : "") << ex(od.mass_matrix().get_entry(i, c));
        if (dg) {
          T << (c ? "," : "") << ex(od.mass_matrix_inverse().get_entry(i, c));
          B << (c ? "," : "") << ex(od.incidence_matrix().get_entry(i, c));
        }
      }
      out << ",\"j\":[" << J.str() << "],\"c\":[" << C.str() << "],\"mij\":[" << M.str() << "]";
      if (dg)
        out << ",\"mijinv\":[" << T.str() << "],\"beta\":[" << B.str() << "]";
      out << "}";
    }
    out << "],\"bmap\":[";
    first = true;
    for (const auto &[i, n, nm, bm, id, x] : od.boundary_map()) {
      out << (first ? "" : ",\n") << "{\"l\":" << i << ",\"g\":" << part.local_to_global(i) << ",\"n\":[";
      first = false;
      for (int d = 0; d < dim; ++d)
        out << (d ? "," : "") << ex(n[d]);
      out << "],\"nm\":" << ex(nm) << ",\"bm\":" << ex(bm) << ",\"id\":" << int(id) << ",\"x\":[";
      for (int d = 0; d < dim; ++d)
        out << (d ? "," : "") << ex(x[d]);
      out << "]}";
    }
    out << "],\"cbp\":[";
    first = true;
    for (const auto &[i, c, j] : od.coupling_boundary_pairs()) {
      out << (first ? "" : ",") << "[" << part.local_to_global(i) << "," << c << ","
          << part.local_to_global(j) << "]";
      first = false;
    }
    out << "]}\n";
  }

  /* wave speeds of all edges for the current (prepared) state */
  void lambda()
  {
    const auto &od = st.offline_data;
    const auto &sp = od.sparsity_pattern_simd();
    const unsigned int simd = VectorizedArray<NUMBER>::size();
    RiemannSolver rs(st.hyperbolic_system, riemann_parameters, std::get<1>(U));
    const auto &V = std::get<0>(U);
    out << "{\"e\":\"lambda\",\"rows\":[";
    bool first = true;
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      if (constrained(i))
        continue;
      out << (first ? "[" : ",\n[");
      first = false;
      const unsigned int *js = sp.columns(i);
      for (unsigned int c = 1; c < sp.row_length(i); ++c) {
        const unsigned int j = *(i < od.n_locally_internal() ? js + c * simd : js + c);
        const auto cij = od.cij_matrix().get_tensor(i, c);
        const auto cji = od.cij_matrix().get_transposed_tensor(i, c);
        const auto U_i = V.get_tensor(i), U_j = V.get_tensor(j);
        const double a = cij.norm() > 1e-14 ? rs.compute(U_i, U_j, i, &j, cij / cij.norm()) : 0.;
        const double b = cji.norm() > 1e-14 ? rs.compute(U_j, U_i, j, &i, cji / cji.norm()) : 0.;
        out << (c > 1 ? "," : "") << "[" << ex(a) << "," << ex(b) << "]";
      }
      out << "]";
    }
    out << "]}\n";
  }

  void flags(std::ostream &o)
  {
    o << ",\"restarts\":" << st.hyperbolic_module.n_restarts() << ",\"warnings\":" << st.hyperbolic_module.n_warnings();
  }

  void run(const std::string &prm, const std::vector<std::string> &commands)
  {
    ParameterAcceptor::initialize(prm);
    st.prepare("base");
    points = verif::support_points(st.offline_data);
    seeds = st.discretization.have_discontinuous_ansatz() ? verif::support_points(st.offline_data, 0.25) : points;
    reinit(U);
    for (auto &x : temp)
      reinit(x);

    for (const auto &command : commands) {
      const auto a = split(command);
      const auto arg = [&](unsigned int k, double d) { return k < a.size() ? std::atof(a[k].c_str()) : d; };
      if (a[0] == "offline") {
        offline();
      } else if (a[0] == "refine") { /* refine:x:y...: cells with centre in the box [0,x]x[0,y]..., before "offline" */
        for (auto &cell : st.discretization.triangulation().active_cell_iterators()) {
          if (!cell->is_locally_owned())
            continue;
          bool in = true;
          for (int d = 0; d < dim; ++d)
            in = in && cell->center()[d] < arg(1 + d, 1e300);
          if (in)
            cell->set_refine_flag();
        }
        st.discretization.triangulation().execute_coarsening_and_refinement();
        st.prepare_kernels();
        points = verif::support_points(st.offline_data);
    seeds = st.discretization.have_discontinuous_ansatz() ? verif::support_points(st.offline_data, 0.25) : points;
        reinit(U);
        for (auto &x : temp)
          reinit(x);
#ifdef WITH_QUANTITIES
      } else if (a[0] == "qprep") {
        quantities.prepare("base");
        out << "{\"e\":\"qprep\"}\n";
      } else if (a[0] == "qacc" || a[0] == "qwrite") { /* qacc:t, qwrite:t:cycle */
        if (a[0] == "qacc")
          quantities.accumulate(U, arg(1, 0.));
        else
          quantities.write_out(U, arg(1, 0.), static_cast<unsigned int>(arg(2, 0.)));
        out << "{\"e\":\"" << a[0] << "\",\"t\":" << ex(arg(1, 0.)) << ",\"U\":";
        state(out, U);
        out << "}\n";
#endif
      } else if (a[0] == "initial") {
        t = arg(1, 0.);
        std::get<0>(U) = st.initial_values.interpolate_hyperbolic_vector(t);
        out << "{\"e\":\"initial\",\"t\":" << ex(t) << ",\"U\":";
        state(out, U);
        out << "}\n";
      } else if (a[0] == "random") {
        /* random:SEED:p0:A0:p1:A1...: primitive component k in p_k + A_k * [0,1); "~" squeezes 1 of 4 nodes */
        auto &V = std::get<0>(U);
        const auto view = st.hyperbolic_system.template view<dim, NUMBER>();
        for (unsigned int i = 0; i < st.offline_data.n_locally_owned(); ++i) {
          state_type p;
          for (unsigned int d = 0; d < N; ++d) {
            double r = rnd(seeds[i], arg(1, 0), d);
            if (a.size() > 2 + 2 * N) { /* plateau structure: round the random numbers */
              const double q = arg(2 + 2 * N, 2);
              r = std::floor(r * q) / q;
            }
            if (2 + 2 * d < a.size() && a[2 + 2 * d][0] == 'L') /* logarithmic: 10^(p + A r) */
              p[d] = std::pow(10., std::atof(a[2 + 2 * d].c_str() + 1) + arg(3 + 2 * d, 0.) * r);
            else
              p[d] = arg(2 + 2 * d, 1.) + arg(3 + 2 * d, 0.) * r;
          }
          V.write_tensor(view.from_primitive_state(p), i);
        }
        V.update_ghost_values();
      } else if (a[0] == "bathymetry") { /* bathymetry:SEED:z0:A[:q] random bottom (shallow water) */
        if constexpr (View::n_initial_precomputed_values == 1) {
          auto &B = const_cast<std::decay_t<decltype(st.hyperbolic_module.initial_precomputed())> &>(
              st.hyperbolic_module.initial_precomputed());
          bottom.assign(st.offline_data.n_locally_owned(), 0.);
          for (unsigned int i = 0; i < st.offline_data.n_locally_owned(); ++i) {
            double r = rnd(points[i], arg(1, 0), 23);
            if (a.size() > 4)
              r = std::floor(r * arg(4, 2)) / arg(4, 2);
            bottom[i] = arg(2, 0.) + arg(3, 1.) * r;
            B.write_tensor(typename View::initial_precomputed_type{{bottom[i]}}, i);
          }
          B.update_ghost_values();
        }
      } else if (a[0] == "lake") { /* lake:LEVEL water at rest over the bottom */
        auto &V = std::get<0>(U);
        for (unsigned int i = 0; i < st.offline_data.n_locally_owned(); ++i) {
          state_type U_i;
          U_i[0] = std::max(0., arg(1, 1.) - (bottom.empty() ? 0. : bottom[i]));
          V.write_tensor(U_i, i);
        }
        V.update_ghost_values();
      } else if (a[0] == "poison") { /* poison:SEED:FRACTION:VALUE:COMPONENT overwrites single entries */
        auto &V = std::get<0>(U);
        for (unsigned int i = 0; i < st.offline_data.n_locally_owned(); ++i)
          if (rnd(seeds[i], arg(1, 0), 17) < arg(2, 0.1)) {
            auto U_i = V.get_tensor(i);
            U_i[static_cast<unsigned int>(arg(4, 0))] = arg(3, 0.);
            V.write_tensor(U_i, i);
          }
        V.update_ghost_values();
      } else if (a[0] == "prep") {
        t = arg(1, t);
        std::get<0>(U).update_ghost_values();
        out << "{\"e\":\"prep\",\"t\":" << ex(t) << ",\"pre\":";
        state(out, U);
        if (arg(2, 0) > 0)
          for (unsigned int i = 0; i < st.offline_data.n_locally_relevant(); ++i) {
            typename View::precomputed_type bad;
            for (unsigned int d = 0; d < View::n_precomputed_values; ++d)
              bad[d] = -1.e10;
            std::get<1>(U).write_tensor(bad, i);
          }
        st.hyperbolic_module.prepare_state_vector(U, t);
        out << ",\"U\":";
        state(out, U);
        if (arg(2, 0) > 0)
          precomputed();
        out << "}\n";
      } else if (a[0] == "lambda") {
        lambda();
      } else if (a[0] == "cfl") {
        st.hyperbolic_module.cfl(arg(1, 0.5));
      } else if (a[0] == "fe") { /* fe[:tau[:tau_max]]: one forward Euler step */
        std::string error;
        double tau = 0.;
        try {
          tau = st.hyperbolic_module.template step<0>(U, {}, {}, temp[0], arg(1, 0.),
                                                      arg(2, std::numeric_limits<double>::max()));
        } catch (dealii::ExceptionBase &e) {
          error = "exception";
        }
        out << "{\"e\":\"fe\",\"tau\":" << ex(tau) << ",\"cfl\":" << ex(st.hyperbolic_module.cfl()) << ",\"error\":\""
            << error << "\",\"U\":";
        state(out, temp[0]);
        out << ",\"alpha\":[";
        bool first = true;
        for (unsigned int i = 0; i < st.offline_data.n_locally_owned(); ++i) {
          if (constrained(i))
            continue;
          out << (first ? "" : ",") << ex(st.hyperbolic_module.alpha().local_element(i));
          first = false;
        }
        out << "]";
        flags(out);
        out << "}\n";
        if (error.empty())
          U.swap(temp[0]), t += tau;
      } else if (a[0] == "stages") { /* stages:w1[:w2]: low order stages, then one step with stage weights */
        const unsigned int n = a.size() - 1;
        double tau = st.hyperbolic_module.template step<0>(U, {}, {}, temp[0], 0.);
        st.hyperbolic_module.prepare_state_vector(temp[0], t + tau);
        if (n == 2) {
          st.hyperbolic_module.template step<1>(temp[0], {{U}}, {{-1.}}, temp[1], tau);
          st.hyperbolic_module.prepare_state_vector(temp[1], t + 2 * tau);
        }
        out << "{\"e\":\"stages\",\"tau\":" << ex(tau) << ",\"w\":[";
        for (unsigned int k = 0; k < n; ++k)
          out << (k ? "," : "") << ex(arg(1 + k, 0));
        out << "],\"S\":[";
        for (unsigned int k = 0; k < n; ++k) {
          if (k)
            out << ",";
          if (k == 0 || n == 1)
            state(out, U);
          else
            state(out, temp[0]);
        }
        out << "],\"old\":";
        if (n == 1) {
          state(out, temp[0]);
          st.hyperbolic_module.template step<1>(temp[0], {{U}}, {{arg(1, 0)}}, temp[2], tau);
        } else {
          state(out, temp[1]);
          st.hyperbolic_module.template step<2>(temp[1], {{U, temp[0]}}, {{arg(1, 0), arg(2, 0)}}, temp[2], tau);
        }
        out << ",\"U\":";
        state(out, temp[2]);
        flags(out);
        out << "}\n";
        U.swap(temp[2]);
      } else if (a[0] == "step") { /* step[:interval] */
        std::string error;
        double tau = 0.;
        const double dt = arg(1, 0.);
        try {
          tau = dt > 0. ? st.time_integrator.step(U, t, t + dt) : st.time_integrator.step(U, t);
        } catch (dealii::ExceptionBase &e) {
          error = "exception";
        }
        t += tau;
        out << "{\"e\":\"step\",\"tau\":" << ex(tau) << ",\"t\":" << ex(t) << ",\"error\":\"" << error << "\",\"U\":";
        state(out, U);
        flags(out);
        out << "}\n";
      } else if (a[0] == "steps") { /* steps:n without output */
        for (int k = 0; k < int(arg(1, 1)); ++k)
          t += st.time_integrator.step(U, t);
        out << "{\"e\":\"steps\",\"t\":" << ex(t) << ",\"U\":";
        state(out, U);
        flags(out);
        out << "}\n";
      } else {
        std::cerr << "unknown command " << command << std::endl;
        std::_Exit(4);
      }
      out.flush();
    }
    out << "{\"e\":\"end\"}\n";
    out.flush();
  }
};

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  if (argc < 4)
    return 2;
  omp_set_num_threads(std::getenv("PROBE_THREADS") ? std::atoi(std::getenv("PROBE_THREADS")) : 1);
  const int dim = std::atoi(argv[1]);
  out.open(std::string(argv[3]) + "." + std::to_string(Utilities::MPI::this_mpi_process(MPI_COMM_WORLD)));
  const std::vector<std::string> commands(argv + 4, argv + argc);
  try {
    if (dim == VDIM)
      Sim<VDIM>(MPI_COMM_WORLD).run(argv[2], commands);
#ifdef VDIM2
    else if (dim == VDIM2)
      Sim<VDIM2>(MPI_COMM_WORLD).run(argv[2], commands);
#endif
    else
      return 2;
  } catch (std::exception &e) {
    std::cerr << "EXCEPTION " << e.what() << std::endl;
    out << "{\"e\":\"exception\"}" << std::endl;
    std::_Exit(3);
  }
  return 0;
}
