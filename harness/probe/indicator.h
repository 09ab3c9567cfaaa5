//
// SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
// Copyright (C) 2023 - 2024 by the ryujin authors
//

#pragma once

#include "hyperbolic_system.h"

#include <multicomponent_vector.h>
#include <simd.h>

#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/vectorization.h>


namespace ryujin
{
  namespace Probe
  {
    template <typename ScalarNumber = double>
    class IndicatorParameters : public dealii::ParameterAcceptor
    {
    public:
      IndicatorParameters(const std::string &subsection = "/Indicator")
          : ParameterAcceptor(subsection)
      {
      }
    };


        template <int dim, typename Number = double>
    class Indicator
    {
    public:
            //@{

      using View = HyperbolicSystemView<dim, Number>;

      using ScalarNumber = typename View::ScalarNumber;

      using state_type = typename View::state_type;

      using PrecomputedVector = typename View::PrecomputedVector;

      using Parameters = IndicatorParameters<ScalarNumber>;

      //@}
            //@{

            Indicator(const HyperbolicSystem &hyperbolic_system,
                const Parameters &parameters,
                const PrecomputedVector &precomputed_values)
          : hyperbolic_system(hyperbolic_system)
          , parameters(parameters)
          , precomputed_values(precomputed_values)
      {
      }

            void reset(const unsigned int /*i*/, const state_type & /*U_i*/)
      {
        // empty
      }

            void accumulate(const unsigned int * /*js*/,
                      const state_type & /*U_j*/,
                      const dealii::Tensor<1, dim, Number> & /*c_ij*/)
      {
        // empty
      }

            Number alpha(const Number /*h_i*/) const
      {
        return Number(0.);
      }

      //@}

    private:
            //@{

      const HyperbolicSystem &hyperbolic_system;
      const Parameters &parameters;
      const PrecomputedVector &precomputed_values;

      //@}
    };
  } // namespace Probe
} // namespace ryujin
