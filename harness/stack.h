#pragma once
// The same stack of objects that TimeLoop constructs, with public members.
#include <compile_time_options.h>
#include <discretization.h>
#include <hyperbolic_module.h>
#include <initial_values.h>
#include <mesh_adaptor.h>
#include <offline_data.h>
#include <parabolic_module.h>
#include <postprocessor.h>
#include <quantities.h>
#include <state_vector.h>
#include <time_integrator.h>
#include <vtu_output.h>

namespace verif
{
  using namespace ryujin;

  template <typename Description, int dim, typename Number = double>
  struct Stack {
    using HyperbolicSystem = typename Description::HyperbolicSystem;
    using ParabolicSystem = typename Description::ParabolicSystem;
    using View =
        typename Description::template HyperbolicSystemView<dim, Number>;
    using StateVector = typename View::StateVector;
    using state_type = typename View::state_type;
    static constexpr auto problem_dimension = View::problem_dimension;
    static constexpr auto n_precomputed_values = View::n_precomputed_values;

    Stack(const MPI_Comm &comm)
        : comm(comm)
        , hyperbolic_system("/B - Equation")
        , parabolic_system("/B - Equation")
        , discretization(this->comm, "/C - Discretization")
        , offline_data(this->comm, discretization, "/D - OfflineData")
        , initial_values(hyperbolic_system, offline_data, "/E - InitialValues")
        , hyperbolic_module(this->comm,
                            computing_timer,
                            offline_data,
                            hyperbolic_system,
                            initial_values,
                            "/F - HyperbolicModule")
        , parabolic_module(this->comm,
                           computing_timer,
                           offline_data,
                           hyperbolic_system,
                           parabolic_system,
                           initial_values,
                           "/G - ParabolicModule")
        , time_integrator(this->comm,
                          offline_data,
                          hyperbolic_module,
                          parabolic_module,
                          "/H - TimeIntegrator")
    {
    }

    void prepare(const std::string &base_name = "harness")
    {
      discretization.prepare(base_name);
      prepare_kernels();
    }

    void prepare_kernels()
    {
      offline_data.prepare(problem_dimension, n_precomputed_values);
      hyperbolic_module.prepare();
      parabolic_module.prepare();
      time_integrator.prepare();
    }

    void initial(StateVector &s, Number t = 0.)
    {
      Vectors::reinit_state_vector<Description>(s, offline_data);
      std::get<0>(s) = initial_values.interpolate_hyperbolic_vector(t);
    }

    const MPI_Comm comm;
    std::map<std::string, dealii::Timer> computing_timer;
    HyperbolicSystem hyperbolic_system;
    ParabolicSystem parabolic_system;
    Discretization<dim> discretization;
    OfflineData<dim, Number> offline_data;
    InitialValues<Description, dim, Number> initial_values;
    HyperbolicModule<Description, dim, Number> hyperbolic_module;
    ParabolicModule<Description, dim, Number> parabolic_module;
    TimeIntegrator<Description, dim, Number> time_integrator;
  };

  /* Support points of all locally relevant degrees of freedom by local index */
  template <int dim, typename Number>
  std::vector<dealii::Point<dim>>
  support_points(const OfflineData<dim, Number> &od, const double shift = 0.)
  {
    /* shift: moves the points towards the centre of their cell */
    const auto &part = *od.scalar_partitioner();
    std::vector<dealii::Point<dim>> r(part.locally_owned_size() +
                                      part.n_ghost_indices());
    const auto &dh = od.dof_handler();
    const auto &fe = dh.get_fe();
    std::vector<dealii::types::global_dof_index> ids(fe.dofs_per_cell);
    dealii::Quadrature<dim> q(fe.get_unit_support_points());
    dealii::FEValues<dim> fev(od.discretization().mapping(),
                              fe,
                              q,
                              dealii::update_quadrature_points);
    for (const auto &cell : dh.active_cell_iterators()) {
      if (cell->is_artificial())
        continue;
      fev.reinit(cell);
      cell->get_dof_indices(ids);
      for (unsigned int k = 0; k < ids.size(); ++k)
        if (part.in_local_range(ids[k]) || part.is_ghost_entry(ids[k]))
          r[part.global_to_local(ids[k])] =
              shift == 0. ? fev.quadrature_point(k)
                          : fev.quadrature_point(k) + shift * (cell->center() - fev.quadrature_point(k));
    }
    return r;
  }
} // namespace verif
