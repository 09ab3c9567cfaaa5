// Records the discrete operators, the index layout and the boundary map:  off DIM PRM OUT COMMAND...
// COMMAND refine:x:y..: refines the cells with centre in [..,x]x[..,y] before the setup; again: repeats the setup
#include <compile_time_options.h>
#include <discretization.h>
#include <offline_data.h>
#include "exact.h"
#include <deal.II/base/multithread_info.h>
#include <omp.h>
#include <fstream>
#include <iostream>

using namespace ryujin;
using namespace dealii;
using verif::ex;

template <typename V>
static std::string vec(const V &v, int n)
{
  std::string s = "[";
  for (int d = 0; d < n; ++d)
    s += (d ? "," : "") + ex(v[d]);
  return s + "]";
}

template <int dim>
void run(const std::string &prm, std::ofstream &out, const std::vector<std::string> &commands)
{
  const MPI_Comm comm = MPI_COMM_WORLD;
  Discretization<dim> discretization(comm, "/C - Discretization");
  OfflineData<dim, NUMBER> od(comm, discretization, "/D - OfflineData");
  ParameterAcceptor::initialize(prm);
  discretization.prepare("off");

  unsigned int repeat = 1;
  for (const auto &command : commands) {
    std::vector<std::string> a;
    std::string x;
    std::istringstream is(command);
    while (std::getline(is, x, ':'))
      a.push_back(x);
    if (a[0] == "again")
      ++repeat;
    if (a[0] == "first") /* a setup before the refinement */
      od.prepare(dim + 2, 2);
    if (a[0] == "refine") {
      for (auto &cell : discretization.triangulation().active_cell_iterators()) {
        if (!cell->is_locally_owned())
          continue;
        bool in = true;
        for (int d = 0; d < dim && 1u + d < a.size(); ++d)
          in = in && cell->center()[d] < std::atof(a[1 + d].c_str());
        if (in)
          cell->set_refine_flag();
      }
      discretization.triangulation().execute_coarsening_and_refinement();
    }
  }
  for (unsigned int k = 0; k < repeat; ++k)
    od.prepare(dim + 2, 2);

  const auto &part = *od.scalar_partitioner();
  const auto &sp = od.sparsity_pattern_simd();
  const unsigned int simd = VectorizedArray<NUMBER>::size();
  const bool dg = discretization.have_discontinuous_ansatz();
  const auto &fe = discretization.finite_element();

  out << "{\"e\":\"off\",\"nexport\":" << od.n_export_indices() << ",\"ninternal\":" << od.n_locally_internal()
      << ",\"nowned\":" << od.n_locally_owned() << ",\"nrelevant\":" << od.n_locally_relevant()
      << ",\"simd\":" << simd << ",\"measure\":" << ex(od.measure_of_omega()) << ",\"ndofs\":" << od.dof_handler().n_dofs()
      << ",\"dpc\":" << fe.dofs_per_cell << ",\"xi\":[";
  for (unsigned int i = 0; i < fe.dofs_per_cell; ++i)
    out << (i ? "," : "") << vec(fe.get_unit_support_points()[i], dim);
  out << "],\"relevant\":[";
  for (unsigned int i = 0; i < od.n_locally_relevant(); ++i)
    out << (i ? "," : "") << part.local_to_global(i);
  out << "],\"import\":["; /* local ranges that other processes need */
  bool first = true;
  for (const auto &r : part.import_indices()) {
    out << (first ? "" : ",") << "[" << r.first << "," << r.second << "]";
    first = false;
  }
  out << "],\"cells\":[";
  first = true;
  std::vector<types::global_dof_index> dofs(fe.dofs_per_cell);
  for (const auto &cell : od.dof_handler().active_cell_iterators()) {
    if (!cell->is_locally_owned())
      continue;
    cell->get_dof_indices(dofs);
    out << (first ? "" : ",\n") << "{\"v\":[";
    first = false;
    for (unsigned int v : cell->vertex_indices())
      out << (v ? "," : "") << vec(cell->vertex(v), dim);
    out << "],\"d\":[";
    for (unsigned int i = 0; i < dofs.size(); ++i)
      out << (i ? "," : "") << dofs[i];
    out << "],\"x\":[";
    for (unsigned int i = 0; i < dofs.size(); ++i)
      out << (i ? "," : "")
          << vec(discretization.mapping().transform_unit_to_real_cell(cell, fe.get_unit_support_points()[i]), dim);
    out << "],\"f\":[";
    for (unsigned int f : cell->face_indices())
      out << (f ? "," : "") << (cell->face(f)->at_boundary() ? int(cell->face(f)->boundary_id()) : -1);
    out << "]}";
  }
  out << "],\"rows\":[";
  first = true;
  for (unsigned int i = 0; i < od.n_locally_owned(); ++i) {
    if (sp.row_length(i) == 1 && !(dg && sp.columns(i)[0] == i && od.affine_constraints().n_constraints() == 0))
      continue;
    out << (first ? "" : ",\n") << "{\"l\":" << i << ",\"g\":" << part.local_to_global(i)
        << ",\"m\":" << ex(od.lumped_mass_matrix().local_element(i))
        << ",\"minv\":" << ex(od.lumped_mass_matrix_inverse().local_element(i));
    first = false;
    std::ostringstream J, C, T, M, I, B;
    const unsigned int *js = sp.columns(i);
    for (unsigned int c = 0; c < sp.row_length(i); ++c) {
      const unsigned int j = *(i < od.n_locally_internal() ? js + c * simd : js + c);
      const char *comma = c ? "," : "";
      J << comma << part.local_to_global(j);
      C << comma << vec(od.cij_matrix().get_tensor(i, c), dim);
      T << comma << vec(od.cij_matrix().get_transposed_tensor(i, c), dim);
      M << comma << ex(od.mass_matrix().get_entry(i, c));
      if (dg) {
        I << comma << ex(od.mass_matrix_inverse().get_entry(i, c));
        B << comma << ex(od.incidence_matrix().get_entry(i, c));
      }
    }
    out << ",\"j\":[" << J.str() << "],\"c\":[" << C.str() << "],\"ct\":[" << T.str() << "],\"mij\":[" << M.str()
        << "],\"mijinv\":[" << I.str() << "],\"beta\":[" << B.str() << "]}";
  }
  out << "],\"ghostmass\":[";
  for (unsigned int i = od.n_locally_owned(); i < od.n_locally_relevant(); ++i)
    out << (i > od.n_locally_owned() ? "," : "") << "[" << part.local_to_global(i) << ","
        << ex(od.lumped_mass_matrix().local_element(i)) << "]";
  out << "],\"bmap\":[";
  first = true;
  for (const auto &[i, n, nm, bm, id, x] : od.boundary_map()) {
    out << (first ? "" : ",\n") << "{\"l\":" << i << ",\"g\":" << part.local_to_global(i) << ",\"n\":" << vec(n, dim)
        << ",\"nm\":" << ex(nm) << ",\"bm\":" << ex(bm) << ",\"id\":" << int(id) << ",\"x\":" << vec(x, dim) << "}";
    first = false;
  }
  out << "],\"cbp\":[";
  first = true;
  for (const auto &[i, c, j] : od.coupling_boundary_pairs()) {
    out << (first ? "" : ",") << "[" << part.local_to_global(i) << "," << c << "," << part.local_to_global(j) << "]";
    first = false;
  }
  out << "]}\n{\"e\":\"end\"}\n";
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  if (argc < 4)
    return 2;
  omp_set_num_threads(std::getenv("PROBE_THREADS") ? std::atoi(std::getenv("PROBE_THREADS")) : 1);
  const int dim = std::atoi(argv[1]);
  std::ofstream out(std::string(argv[3]) + "." + std::to_string(Utilities::MPI::this_mpi_process(MPI_COMM_WORLD)));
  const std::vector<std::string> commands(argv + 4, argv + argc);
  try {
    if (dim == 1)
      run<1>(argv[2], out, commands);
    else if (dim == 2)
      run<2>(argv[2], out, commands);
    else
      run<3>(argv[2], out, commands);
  } catch (std::exception &e) {
    std::cerr << "EXCEPTION " << e.what() << std::endl;
    std::_Exit(3);
  }
  return 0;
}
