#pragma once
#include "description.h"
#include <initial_state_library.h>

namespace ryujin
{
  namespace Probe
  {
    struct Description;

    template <int dim, typename Number>
    class ProbeState : public InitialState<Description, dim, Number>
    {
    public:
      using View = HyperbolicSystemView<dim, Number>;
      using state_type = typename View::state_type;

      ProbeState(const HyperbolicSystem &, const std::string subsection)
          : InitialState<Description, dim, Number>("probe", subsection)
      {
        quadratic_ = 0.;
        this->add_parameter("probe quadratic", quadratic_, "z += q x^2");
        constant_ = 0.;
        this->add_parameter("probe constant", constant_, "z += c");
      }

      state_type compute(const dealii::Point<dim> &point, Number t) final
      {
        if (probe::in_bc) {
          if (std::find(probe::bc_times.begin(), probe::bc_times.end(), t) ==
              probe::bc_times.end())
            probe::bc_times.push_back(t);
        }
        state_type U;
        U[0] = 1. + constant_;
        for (int d = 0; d < dim; ++d)
          U[0] += (d + 1) * point[d];
        U[0] += quadratic_ * point[0] * point[0];
        U[View::problem_dimension - 1] = t;
        return U;
      }

    private:
      double quadratic_, constant_;
    };
  } // namespace Probe

  using namespace Probe;

  template <int dim, typename Number>
  class InitialStateLibrary<Description, dim, Number>
  {
  public:
    using HyperbolicSystem = typename Description::HyperbolicSystem;

    using initial_state_list_type =
        std::set<std::unique_ptr<InitialState<Description, dim, Number>>>;

    static void
    populate_initial_state_list(initial_state_list_type &initial_state_list,
                                const HyperbolicSystem &h,
                                const std::string &s)
    {
      initial_state_list.emplace(
          std::make_unique<Probe::ProbeState<dim, Number>>(h, s));
    }
  };
} // namespace ryujin
