// Evaluates initial states:  ini DIM PRM IN OUT
//   at T X..           the state and the precomputed values at a point
//   front T LO HI X2.. the position in [LO,HI] of the first coordinate where the first component changes, and both states
//   interp T           the interpolated vector on the mesh of the parameter file
#include <instantiate.h>
#include <compile_time_options.h>
#include <discretization.h>
#include <initial_values.h>
#include <offline_data.h>
#include "stack.h"
#include "exact.h"
#include <deal.II/base/multithread_info.h>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace ryujin;
using namespace dealii;
using verif::ex;

template <typename V>
static std::string vec(const V &v, unsigned int n)
{
  std::string s = "[";
  for (unsigned int d = 0; d < n; ++d)
    s += (d ? "," : "") + ex(v[d]);
  return s + "]";
}

template <int dim>
void go(char **argv)
{
  using View = typename Description::template HyperbolicSystemView<dim, NUMBER>;
  constexpr unsigned int N = View::problem_dimension;
  constexpr unsigned int NP = View::n_initial_precomputed_values;
  typename Description::HyperbolicSystem hyperbolic_system("/B - Equation");
  const MPI_Comm comm = MPI_COMM_WORLD;
  Discretization<dim> discretization(comm, "/C - Discretization");
  OfflineData<dim, NUMBER> od(comm, discretization, "/D - OfflineData");
  InitialValues<Description, dim, NUMBER> iv(hyperbolic_system, od, "/E - InitialValues");
  ParameterAcceptor::initialize(argv[2]);

  std::ifstream in(argv[3]);
  std::ofstream out(argv[4] + std::string(".") + std::to_string(Utilities::MPI::this_mpi_process(comm)));
  bool prepared = false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string what, s;
    is >> what;
    const auto number = [&]() {
      is >> s;
      return std::strtod(s.c_str(), nullptr);
    };
    const double t = number();
    if (what == "at") {
      Point<dim> x;
      for (int d = 0; d < dim; ++d)
        x[d] = number();
      out << "{\"e\":\"at\",\"U\":" << vec(iv.initial_state(x, t), N) << ",\"z\":";
      if constexpr (NP > 0)
        out << vec(iv.initial_precomputed(x), NP) << "}\n";
      else
        out << "[]}\n";
    } else if (what == "front") {
      double lo = number(), hi = number();
      Point<dim> x;
      for (int d = 1; d < dim; ++d)
        x[d] = number();
      const auto at = [&](double p) {
        x[0] = p;
        return iv.initial_state(x, t);
      };
      const double a = at(lo)[0], b = at(hi)[0];
      while (true) {
        const double m = .5 * (lo + hi);
        if (m <= std::min(lo, hi) || m >= std::max(lo, hi))
          break;
        const double v = at(m)[0];
        (std::abs(v - a) <= std::abs(v - b) ? lo : hi) = m;
      }
      out << "{\"e\":\"front\",\"x\":" << ex(lo) << ",\"L\":" << vec(at(lo), N) << ",\"R\":" << vec(at(hi), N) << "}\n";
    } else if (what == "interp") {
      if (!prepared) {
        discretization.prepare("ini");
        od.prepare(N, View::n_precomputed_values);
      }
      prepared = true;
      const auto U = iv.interpolate_hyperbolic_vector(t);
      const auto Z = iv.interpolate_initial_precomputed_vector();
      const auto points = verif::support_points(od);
      out << "{\"e\":\"interp\",\"rows\":[";
      for (unsigned int i = 0; i < od.n_locally_relevant(); ++i) {
        out << (i ? "," : "") << "{\"x\":" << vec(points[i], dim) << ",\"U\":" << vec(U.get_tensor(i), N) << ",\"z\":";
        if constexpr (NP > 0)
          out << vec(Z.get_tensor(i), NP);
        else
          out << "[]";
        out << "}";
      }
      out << "]}\n";
    }
  }
  out << "{\"e\":\"end\"}\n";
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  switch (std::atoi(argv[1])) {
  case VDIM: go<VDIM>(argv); break;
#ifdef VDIM2
  case VDIM2: go<VDIM2>(argv); break;
#endif
#ifdef VDIM3
  case VDIM3: go<VDIM3>(argv); break;
#endif
  }
}
