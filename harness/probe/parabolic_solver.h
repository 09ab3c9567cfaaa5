#pragma once
// Instrumented parabolic solver: p <- p + tau, everything else unchanged.
#include "hyperbolic_system.h"
#include "parabolic_system.h"
#include <initial_values.h>
#include <offline_data.h>
#include <hyperbolic_module.h>
#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/timer.h>

namespace ryujin
{
  namespace Probe
  {
    template <typename Description, int dim, typename Number>
    class ParabolicSolver final : public dealii::ParameterAcceptor
    {
    public:
      using HyperbolicSystem = typename Description::HyperbolicSystem;
      using ParabolicSystem = typename Description::ParabolicSystem;
      using View =
          typename Description::template HyperbolicSystemView<dim, Number>;
      using StateVector = typename View::StateVector;
      static constexpr auto N = View::problem_dimension;

      ParabolicSolver(
          const MPI_Comm &,
          std::map<std::string, dealii::Timer> &,
          const HyperbolicSystem &,
          const ParabolicSystem &,
          const OfflineData<dim, Number> &offline_data,
          const InitialValues<Description, dim, Number> &,
          const std::string &subsection = "ParabolicSolver")
          : ParameterAcceptor(subsection)
          , offline_data_(&offline_data)
      {
      }

      void prepare() {}

      void backward_euler_step(const StateVector &old_state_vector,
                               const Number old_t,
                               StateVector &new_state_vector,
                               Number tau,
                               const IDViolationStrategy id_violation_strategy,
                               const bool reinit_gmg) const
      {
        const auto &old_U = std::get<0>(old_state_vector);
        auto &new_U = std::get<0>(new_state_vector);
        const unsigned int n_owned = offline_data_->n_locally_owned();
        if (probe::step_index != last_step)
          n_calls = 0, last_step = probe::step_index;
        ++n_calls;
        for (unsigned int i = 0; i < n_owned; ++i) {
          auto U_i = old_U.get_tensor(i);
          U_i[N - 2] += tau;
          new_U.write_tensor(U_i, i);
        }
        new_U.update_ghost_values();
        const int n = probe::n_prep.load();
        const bool fail = 
            probe::fail_script.count({-1, probe::step_index, n_calls}) > 0;
        std::ostringstream s;
        s << "{\"e\":\"bes\",\"n\":" << n << ",\"t\":" << probe::num(old_t)
          << ",\"tau\":" << probe::num(tau)
          << ",\"gmg\":" << (reinit_gmg ? "true" : "false") << ",\"U\":[";
        const unsigned int pick = probe::node >= 0 ? probe::node : 0;
        if (pick < n_owned) {
          const auto U_i = old_U.get_tensor(pick);
          for (unsigned int d = 0; d < N; ++d)
            s << (d ? "," : "") << probe::num(U_i[d]);
        }
        s << "]}";
        probe::emit(s.str());
        if (fail) {
          if (id_violation_strategy == IDViolationStrategy::warn)
            ++n_warnings_;
          else {
            ++n_restarts_;
            throw Restart();
          }
        }
      }

      void print_solver_statistics(std::ostream &) const {}
      unsigned int n_restarts() const { return n_restarts_; }
      unsigned int n_warnings() const { return n_warnings_; }

    private:
      const OfflineData<dim, Number> *offline_data_;
      mutable int n_calls = 0, last_step = -1;
      mutable unsigned int n_restarts_ = 0, n_warnings_ = 0;
    };
  } // namespace Probe
} // namespace ryujin
