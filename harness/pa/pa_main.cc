// Steps of the parabolic module on prescribed states:  pa DIM PRM COMMANDS OUT
// Commands: "refine X.." (cells with a centre below X), "strategy warn|raise", "step SEED T TAU DENSITY VELOCITY ENERGY"
// (random states with 1 <= rho <= 1 + DENSITY, |v_d| <= VELOCITY, 1 <= e <= 1 + ENERGY)
#include <instantiate.h>
#include "stack.h"
#include "exact.h"
#include <deal.II/base/quadrature_lib.h>
#include <omp.h>
#include <fstream>
#include <iostream>

using namespace ryujin;
using namespace dealii;
using verif::ex;

template <typename V>
static std::string vec(const V &v, int n)
{
  std::string s = "[";
  for (int d = 0; d < n; ++d)
    s += (d ? "," : "") + ex(v[d]);
  return s + "]";
}

static double noise(unsigned long long seed, const std::vector<long long> &key, unsigned int c)
{
  unsigned long long h = seed * 0x9E3779B97F4A7C15ull + c;
  for (auto k : key) {
    h ^= (unsigned long long)k + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 31;
  }
  return double(h >> 40) / double(1 << 24);
}

template <int dim>
void go(char **argv)
{
  using View = typename Description::template HyperbolicSystemView<dim, NUMBER>;
  typename Description::HyperbolicSystem hyperbolic_system("/B - Equation");
  typename Description::ParabolicSystem parabolic_system("/B - Equation");
  const MPI_Comm comm = MPI_COMM_WORLD;
  std::map<std::string, Timer> computing_timer;
  Discretization<dim> discretization(comm, "/C - Discretization");
  OfflineData<dim, NUMBER> od(comm, discretization, "/D - OfflineData");
  InitialValues<Description, dim, NUMBER> initial_values(hyperbolic_system, od, "/E - InitialValues");
  ParabolicModule<Description, dim, NUMBER> parabolic_module(comm, computing_timer, od, hyperbolic_system, parabolic_system,
                                                             initial_values, "/G - ParabolicModule");
  ParameterAcceptor::initialize(argv[2]);
  discretization.prepare("pa");
  std::ifstream in(argv[3]);
  std::ofstream out(argv[4] + std::string(".") + std::to_string(Utilities::MPI::this_mpi_process(MPI_COMM_WORLD)));
  typename View::StateVector U0, U1;
  std::vector<Point<dim>> at;
  bool ready = false;

  const auto record = [&]() {
    const auto &part = *od.scalar_partitioner();
    const auto &con = od.affine_constraints();
    out << "{\"e\":\"mesh\",\"nodes\":[";
    bool first = true;
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      const auto g = part.local_to_global(i);
      if (con.is_constrained(g))
        continue;
      out << (first ? "" : ",\n") << "{\"g\":" << g << ",\"m\":" << ex(od.lumped_mass_matrix().local_element(i)) << ",\"bc\":[";
      first = false;
      bool f = true;
      for (const auto &[k, n, nm, bm, id, x] : od.boundary_map())
        if (k == i) {
          out << (f ? "" : ",") << "{\"n\":" << vec(n, dim) << ",\"id\":" << int(id) << "}";
          f = false;
        }
      out << "]}";
    }
    out << "],\"cells\":[";
    const auto &fe = od.dof_handler().get_fe();
    FEValues<dim> fev(od.discretization().mapping(), fe, QGauss<dim>(2), update_JxW_values | update_values | update_gradients);
    std::vector<types::global_dof_index> ids(fe.dofs_per_cell);
    first = true;
    for (const auto &cell : od.dof_handler().active_cell_iterators()) {
      if (!cell->is_locally_owned())
        continue;
      fev.reinit(cell);
      cell->get_dof_indices(ids);
      out << (first ? "" : ",\n") << "{\"d\":[";
      first = false;
      for (unsigned int a = 0; a < ids.size(); ++a) {
        out << (a ? ",[" : "[");
        if (const auto *e = con.get_constraint_entries(ids[a])) {
          for (unsigned int k = 0; k < e->size(); ++k)
            out << (k ? "," : "") << "{\"j\":" << (*e)[k].first << ",\"w\":" << ex((*e)[k].second) << "}";
        } else
          out << "{\"j\":" << ids[a] << ",\"w\":\"1\"}";
        out << "]";
      }
      out << "],\"q\":[";
      for (unsigned int q = 0; q < fev.n_quadrature_points; ++q) {
        out << (q ? ",{" : "{") << "\"w\":" << ex(fev.JxW(q)) << ",\"f\":[";
        for (unsigned int a = 0; a < ids.size(); ++a)
          out << (a ? "," : "") << ex(fev.shape_value(a, q));
        out << "],\"g\":[";
        for (unsigned int a = 0; a < ids.size(); ++a)
          out << (a ? "," : "") << vec(fev.shape_grad(a, q), dim);
        out << "]}";
      }
      out << "]}";
    }
    out << "]}\n";
  };
  const auto prepare = [&]() {
    od.prepare(View::problem_dimension, View::n_precomputed_values);
    parabolic_module.prepare();
    parabolic_module.id_violation_strategy_ = IDViolationStrategy::warn;
    Vectors::reinit_state_vector<Description>(U0, od);
    Vectors::reinit_state_vector<Description>(U1, od);
    at = verif::support_points(od);
    ready = true;
    record();
  };

  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string what;
    is >> what;
    if (what == "refine") {
      Point<dim> x;
      for (int d = 0; d < dim; ++d)
        is >> x[d];
      for (auto &cell : discretization.triangulation().active_cell_iterators()) {
        bool below = cell->is_locally_owned();
        for (int d = 0; d < dim; ++d)
          below = below && cell->center()[d] < x[d];
        if (below)
          cell->set_refine_flag();
      }
      discretization.triangulation().execute_coarsening_and_refinement();
      ready = false;
      continue;
    }
    if (!ready)
      prepare();
    if (what == "strategy") {
      is >> what;
      parabolic_module.id_violation_strategy_ = what == "warn" ? IDViolationStrategy::warn : IDViolationStrategy::raise_exception;
      continue;
    }
    unsigned long long seed;
    double t, tau, drho, dv, de;
    is >> seed >> t >> tau >> drho >> dv >> de;
    const auto &part = *od.scalar_partitioner();
    auto &U = std::get<0>(U0);
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      std::vector<long long> key;
      for (int d = 0; d < dim; ++d)
        key.push_back(std::llround(at[i][d] * 1e6 + 0.1234));
      typename View::state_type u;
      const double rho = 1. + drho * noise(seed, key, 0), e = 1. + de * noise(seed, key, 1);
      double kin = 0.;
      u[0] = rho;
      for (int d = 0; d < dim; ++d) {
        const double v = dv * (2. * noise(seed, key, 2 + d) - 1.);
        u[1 + d] = rho * v;
        kin += 0.5 * rho * v * v;
      }
      u[1 + dim] = rho * e + kin;
      U.write_tensor(u, i);
    }
    U.update_ghost_values();
    const auto w0 = parabolic_module.n_warnings(), r0 = parabolic_module.n_restarts();
    bool restart = false;
    try {
      parabolic_module.template step<0>(U0, t, {}, {}, U1, tau);
    } catch (const Restart &) {
      restart = true;
    }
    out << "{\"e\":\"step\",\"restart\":" << restart << ",\"warnings\":" << parabolic_module.n_warnings() - w0
        << ",\"restarts\":" << parabolic_module.n_restarts() - r0 << ",\"u\":[";
    bool first = true;
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      const auto g = part.local_to_global(i);
      if (od.affine_constraints().is_constrained(g))
        continue;
      out << (first ? "" : ",\n") << "{\"g\":" << g << ",\"old\":" << vec(U.get_tensor(i), dim + 2)
          << ",\"new\":" << vec(std::get<0>(U1).get_tensor(i), dim + 2)
          << ",\"dir\":" << vec(initial_values.initial_state(at[i], t + tau), dim + 2) << "}";
      first = false;
    }
    out << "]}\n";
  }
  out << "{\"e\":\"end\"}\n";
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  omp_set_num_threads(std::getenv("PROBE_THREADS") ? std::atoi(std::getenv("PROBE_THREADS")) : 1);
  if (argc < 5)
    return 2;
  try {
    const int dim = std::atoi(argv[1]);
    if (dim == 1)
      go<1>(argv);
    else if (dim == 2)
      go<2>(argv);
    else
      go<3>(argv);
  } catch (std::exception &e) {
    std::cerr << "EXCEPTION " << e.what() << std::endl;
    std::_Exit(3);
  }
  return 0;
}
