//
// SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
// Copyright (C) 2023 - 2024 by the ryujin authors
//

#pragma once

#include "hyperbolic_system.h"

#include <compile_time_options.h>
#include <multicomponent_vector.h>
#include <newton.h>
#include <simd.h>

namespace ryujin
{
  namespace Probe
  {
    template <typename ScalarNumber = double>
    class LimiterParameters : public dealii::ParameterAcceptor
    {
    public:
      LimiterParameters(const std::string &subsection = "/Limiter")
          : ParameterAcceptor(subsection)
      {
        iterations_ = 2;
        add_parameter(
            "iterations", iterations_, "Number of limiter iterations");
      }

      ACCESSOR_READ_ONLY(iterations);

    private:
      unsigned int iterations_;
    };


        template <int dim, typename Number = double>
    class Limiter
    {
    public:
            //@{

      using View = HyperbolicSystemView<dim, Number>;

      using ScalarNumber = typename View::ScalarNumber;

      using state_type = typename View::state_type;

      using flux_contribution_type = typename View::flux_contribution_type;

      using PrecomputedVector = typename View::PrecomputedVector;

      using Parameters = LimiterParameters<ScalarNumber>;

      //@}
            //@{

            static constexpr unsigned int n_bounds = 1;

            using Bounds = std::array<Number, n_bounds>;

            Limiter(const HyperbolicSystem &hyperbolic_system,
              const Parameters &parameters,
              const PrecomputedVector &precomputed_values)
          : hyperbolic_system(hyperbolic_system)
          , parameters(parameters)
          , precomputed_values(precomputed_values)
      {
      }

            void reset(const unsigned int /*i*/,
                 const state_type & /*new_U_i*/,
                 const flux_contribution_type & /*new_flux_i*/)
      {
        // empty
      }

            void accumulate(const unsigned int * /*js*/,
                      const state_type & /*U_j*/,
                      const flux_contribution_type & /*flux_j*/,
                      const dealii::Tensor<1, dim, Number> & /*scaled_c_ij*/,
                      const state_type & /*affine_shift*/)
      {
        // empty
      }

            Bounds bounds(const Number /*hd_i*/) const
      {
        auto relaxed_bounds = bounds_;

        return relaxed_bounds;
      }

            static Bounds combine_bounds(const Bounds &, const Bounds &)
      {
        return Bounds{};
      }

      //*}
            //@{

            std::tuple<Number, bool> limit(const Bounds & /*bounds*/,
                                     const state_type & /*U*/,
                                     const state_type & /*P*/,
                                     const Number /*t_min*/ = Number(0.),
                                     const Number t_max = Number(1.))
      {
        return {t_max, !probe::fail_now()};
      }

      //*}
            //@{

            static bool
      is_in_invariant_domain(const HyperbolicSystem & /*hyperbolic_system*/,
                             const Bounds & /*bounds*/,
                             const state_type & /*U*/)
      {
        return true;
      }

    private:
      //@}
            //@{

      const HyperbolicSystem &hyperbolic_system;
      const Parameters &parameters;
      const PrecomputedVector &precomputed_values;

      Bounds bounds_;
      //@}
    };
  } // namespace Probe
} // namespace ryujin
