// Drives the real ryujin modules with the probe equation.
//   probe loop DIM PRM TRACE            full TimeLoop::run()
//   probe step DIM PRM TRACE I1 I2 ...  single TimeIntegrator::step() calls,
//                                       I_k: t_final - t, or -1
#include "instantiate.h"
#include "stack.h"
#include <time_loop.h>
#include <deal.II/base/multithread_info.h>
#include <omp.h>
#include <iostream>

using namespace ryujin;
using namespace dealii;

template <int dim>
void run_loop(const std::string &prm)
{
  const MPI_Comm comm = MPI_COMM_WORLD;
  TimeLoop<Description, dim, NUMBER> loop(comm);
  ParameterAcceptor::initialize(prm);
  loop.run();
  probe::poll();
  probe::emit("{\"e\":\"end\"}");
}

template <int dim>
void run_step(const std::string &prm, const std::vector<double> &intervals)
{
  const int n_steps = intervals.size();
  const MPI_Comm comm = MPI_COMM_WORLD;
  verif::Stack<Description, dim> st(comm);
  using S = verif::Stack<Description, dim>;
  constexpr auto N = S::problem_dimension;
  ParameterAcceptor::initialize(prm);
  st.prepare();
  typename S::StateVector U;
  st.initial(U);

  const auto points = verif::support_points(st.offline_data);
  const unsigned int n_owned = st.offline_data.n_locally_owned();
  /* observe the owned node closest to the point (0.5,...) */
  double best = 1e300;
  for (unsigned int i = 0; i < n_owned; ++i) {
    double d = 0;
    for (int k = 0; k < dim; ++k)
      d += std::abs(points[i][k] - 0.5);
    if (d < best && st.offline_data.sparsity_pattern_simd().row_length(i) > 1)
      best = d, probe::node = i;
  }
  double t = 0.;
  for (int n = 0; n < n_steps; ++n) {
    /* reset all tokens */
    probe::step_index = n + 1;
    probe::n_prep = 0;
    const double t_final = intervals[n] > 0. ? t + intervals[n] : -1.;
    auto &V = std::get<0>(U);
    for (unsigned int i = 0; i < n_owned; ++i) {
      auto U_i = V.get_tensor(i);
      for (unsigned int d = 1; d < N - 1; ++d)
        U_i[d] = 0.;
      V.write_tensor(U_i, i);
    }
    V.update_ghost_values();
    std::ostringstream b;
    b << "{\"e\":\"begin\",\"t\":" << probe::num(t) << "}";
    probe::emit(b.str());
    double tau = 0.;
    bool error = false;
    try {
      tau = t_final > 0. ? st.time_integrator.step(U, t, t_final)
                         : st.time_integrator.step(U, t);
    } catch (dealii::ExceptionBase &e) {
      error = true;
    } catch (Restart &) {
      error = true;
    }
    std::ostringstream s;
    s << "{\"e\":\"step\",\"t\":" << probe::num(t)
      << ",\"tau\":" << probe::num(tau)
      << ",\"error\":" << (error ? "true" : "false")
      << ",\"restarts\":" << st.hyperbolic_module.n_restarts()
      << ",\"warnings\":" << st.hyperbolic_module.n_warnings()
#ifdef PROBE_PARABOLIC
      << ",\"prestarts\":" << st.parabolic_module.n_restarts()
      << ",\"pwarnings\":" << st.parabolic_module.n_warnings()
#endif
      << ",\"cfl\":" << probe::num(st.hyperbolic_module.cfl())
      << ",\"eff\":" << probe::num(st.time_integrator.efficiency())
      << ",\"n\":" << probe::n_prep.load() << ",\"U\":[";
    const auto U_i = V.get_tensor(probe::node);
    for (unsigned int d = 0; d < N; ++d)
      s << (d ? "," : "") << probe::num(U_i[d]);
    double cmin = 1e300, cmax = -1e300, zerr = 0.;
    for (unsigned int i = 0; i < n_owned; ++i) {
      if (st.offline_data.sparsity_pattern_simd().row_length(i) == 1)
        continue;
      const auto W = V.get_tensor(i);
      cmin = std::min(cmin, W[N - 1]);
      cmax = std::max(cmax, W[N - 1]);
      const auto Z = st.initial_values.initial_state(points[i], 0.);
      zerr = std::max(zerr, std::abs(W[0] - Z[0]));
    }
    s << "],\"clk\":[" << probe::num(cmin) << "," << probe::num(cmax)
      << "],\"zerr\":" << probe::num(zerr) << "}";
    probe::emit(s.str());
    if (error)
      break;
    t += tau;
  }
  probe::poll();
  probe::emit("{\"e\":\"end\"}");
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  if (argc < 5)
    return 2;
  omp_set_num_threads(std::getenv("PROBE_THREADS")
                          ? std::atoi(std::getenv("PROBE_THREADS"))
                          : 1);
  const std::string mode = argv[1], prm = argv[3], trace = argv[4];
  const int dim = std::atoi(argv[2]);
  probe::setup(Utilities::MPI::this_mpi_process(MPI_COMM_WORLD), trace);
  try {
    if (mode == "loop") {
      if (dim == 1)
        run_loop<1>(prm);
      else
        run_loop<2>(prm);
    } else {
      std::vector<double> intervals;
      for (int k = 5; k < argc; ++k)
        intervals.push_back(std::atof(argv[k]));
      if (dim == 1)
        run_step<1>(prm, intervals);
      else
        run_step<2>(prm, intervals);
    }
  } catch (std::exception &e) {
    std::cerr << "EXCEPTION " << e.what() << std::endl;
    probe::emit("{\"e\":\"exception\"}");
    std::_Exit(3);
  }
  return 0;
}
