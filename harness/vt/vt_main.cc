// Writes visualization output of given states:  vt DIM PRM IN OUT
//   refine X..                       refines the cells with centre below X.., set up again
//   out NAME T CYCLE FULL LEVELS S A [flat]  a state made of S with amplitude A; post-processing and output
#include <instantiate.h>
#include <compile_time_options.h>
#include <discretization.h>
#include <initial_values.h>
#include <offline_data.h>
#include <postprocessor.h>
#include <state_vector.h>
#include <vtu_output.h>
#include "stack.h"
#include "exact.h"
#include <deal.II/base/multithread_info.h>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace ryujin;
using namespace dealii;
using verif::ex;

template <typename V>
static std::string vec(const V &v, unsigned int n)
{
  std::string s = "[";
  for (unsigned int d = 0; d < n; ++d)
    s += (d ? "," : "") + ex(v[d]);
  return s + "]";
}

template <int dim>
void go(char **argv)
{
  using View = typename Description::template HyperbolicSystemView<dim, NUMBER>;
  constexpr unsigned int N = View::problem_dimension, NP = View::n_precomputed_values, NI = View::n_initial_precomputed_values;
  typename Description::HyperbolicSystem hyperbolic_system("/B - Equation");
  typename Description::ParabolicSystem parabolic_system("/B - Equation");
  const MPI_Comm comm = MPI_COMM_WORLD;
  Discretization<dim> discretization(comm, "/C - Discretization");
  OfflineData<dim, NUMBER> od(comm, discretization, "/D - OfflineData");
  InitialValues<Description, dim, NUMBER> iv(hyperbolic_system, od, "/E - InitialValues");
  Postprocessor<Description, dim, NUMBER> post(comm, od, hyperbolic_system, parabolic_system, "/L - Postprocessor");
  typename View::InitialPrecomputedVector initial_precomputed;
  typename Vectors::ScalarVector<NUMBER> alpha;
  VTUOutput<Description, dim, NUMBER> vtu(comm, od, hyperbolic_system, parabolic_system, post, initial_precomputed, alpha, "/J - VTUOutput");
  ParameterAcceptor::initialize(argv[2]);

  typename View::StateVector state;
  std::vector<Point<dim>> at;
  const auto prepare = [&]() {
    od.prepare(N, NP);
    Vectors::reinit_state_vector<Description>(state, od);
    alpha.reinit(od.scalar_partitioner());
    initial_precomputed.reinit_with_scalar_partitioner(od.scalar_partitioner());
    post.prepare();
    vtu.prepare();
    at = verif::support_points(od);
  };
  discretization.prepare("vt");
  prepare();

  std::ifstream in(argv[3]);
  std::ofstream out(argv[4] + std::string(".") + std::to_string(Utilities::MPI::this_mpi_process(comm)));
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string what;
    is >> what;
    if (what == "refine") {
      Point<dim> x;
      for (int d = 0; d < dim; ++d)
        is >> x[d];
      for (auto &cell : discretization.triangulation().active_cell_iterators()) {
        bool below = cell->is_locally_owned();
        for (int d = 0; d < dim; ++d)
          below = below && cell->center()[d] < x[d];
        if (below)
          cell->set_refine_flag();
      }
      discretization.triangulation().execute_coarsening_and_refinement();
      prepare();
      continue;
    }
    std::string name;
    double t, amplitude;
    unsigned int cycle, full, levels, s;
    is >> name >> t >> cycle >> full >> levels >> s >> amplitude;
    const auto &part = *od.scalar_partitioner();
    auto &U = std::get<0>(state);
    auto &P = std::get<1>(state);
    const auto r = [&](unsigned int i, unsigned int k) {
      unsigned long h = (part.local_to_global(i) * 31 + k) * 2654435761ul + s * 40503ul;
      h = (h ^ (h >> 15)) * 2246822519ul;
      h = (h ^ (h >> 13)) & 1023;
      return h / 1024.;
    };
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      Tensor<1, N, NUMBER> u;
      for (unsigned int c = 0; c < N; ++c)
        u[c] = (c == 0 ? 1. : c <= dim ? -.25 : 4.) + amplitude * r(i, c);
      U.write_tensor(u, i);
      if constexpr (NP > 0) {
        Tensor<1, NP, NUMBER> p;
        for (unsigned int c = 0; c < NP; ++c)
          p[c] = r(i, 8 + c);
        P.write_tensor(p, i);
      }
      if constexpr (NI > 0) {
        Tensor<1, NI, NUMBER> p;
        for (unsigned int c = 0; c < NI; ++c)
          p[c] = r(i, 16 + c);
        initial_precomputed.write_tensor(p, i);
      }
      alpha.local_element(i) = r(i, 24);
    }
    U.update_ghost_values();
    if constexpr (NP > 0)
      P.update_ghost_values();
    if constexpr (NI > 0)
      initial_precomputed.update_ghost_values();
    alpha.update_ghost_values();
    post.compute(state);
    vtu.schedule_output(state, name, t, cycle, full, levels);

    const auto &sp = od.sparsity_pattern_simd();
    out << "{\"nodes\":[";
    for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
      out << (i ? "," : "") << "{\"g\":" << part.local_to_global(i) << ",\"x\":" << vec(at[i], dim) << ",\"U\":" << vec(U.get_tensor(i), N) << ",\"P\":";
      if constexpr (NP > 0)
        out << vec(P.get_tensor(i), NP);
      else
        out << "[]";
      out << ",\"I\":";
      if constexpr (NI > 0)
        out << vec(initial_precomputed.get_tensor(i), NI);
      else
        out << "[]";
      out << ",\"a\":" << ex(alpha.local_element(i)) << ",\"m\":" << ex(od.lumped_mass_matrix().local_element(i)) << ",\"row\":[";
      const auto *js = sp.columns(i);
      for (unsigned int k = 0; k < sp.row_length(i); ++k, js += sp.stride_of_row(i))
        out << (k ? "," : "") << "[" << part.local_to_global(*js) << "," << vec(od.cij_matrix().template get_tensor<NUMBER>(i, k), dim) << "]";
      out << "],\"con\":[";
      if (od.affine_constraints().is_constrained(part.local_to_global(i))) {
        bool first = true;
        for (const auto &[j, w] : *od.affine_constraints().get_constraint_entries(part.local_to_global(i))) {
          out << (first ? "" : ",") << "[" << j << "," << ex(w) << "]";
          first = false;
        }
      }
      out << "],\"q\":[";
      for (unsigned int k = 0; k < post.n_quantities(); ++k)
        out << (k ? "," : "") << ex(post.quantities()[k].local_element(i));
      out << "]}";
    }
    out << "],\"names\":[";
    for (unsigned int k = 0; k < post.n_quantities(); ++k)
      out << (k ? "," : "") << "\"" << post.component_names()[k] << "\"";
    out << "],\"cells\":[";
    bool first = true;
    std::vector<types::global_dof_index> ids(discretization.finite_element().dofs_per_cell);
    const auto &fe = discretization.finite_element();
    for (const auto &cell : od.dof_handler().active_cell_iterators()) {
      if (!cell->is_locally_owned())
        continue;
      cell->get_active_or_mg_dof_indices(ids);
      out << (first ? "" : ",") << "{\"v\":[";
      first = false;
      for (auto v : cell->vertex_indices()) {
        // the degree of freedom at this vertex
        unsigned int best = 0;
        for (unsigned int k = 0; k < ids.size(); ++k)
          if (fe.get_unit_support_points()[k].distance(GeometryInfo<dim>::unit_cell_vertex(v)) <
              fe.get_unit_support_points()[best].distance(GeometryInfo<dim>::unit_cell_vertex(v)))
            best = k;
        out << (v ? "," : "") << "[" << ids[best] << "," << vec(cell->vertex(v), dim) << "]";
      }
      out << "]}";
    }
    out << "]}" << std::endl;
  }
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  switch (std::atoi(argv[1])) {
  case 1:
    go<1>(argv);
    break;
  case 2:
    go<2>(argv);
    break;
  default:
    go<3>(argv);
  }
}
