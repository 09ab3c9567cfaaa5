#pragma once
#include <stub_solver.h>
#include "hyperbolic_system.h"
#include "indicator.h"
#include "limiter.h"
#include "parabolic_system.h"
#include "riemann_solver.h"
#ifdef PROBE_PARABOLIC
#include "parabolic_solver.h"
#endif

namespace ryujin
{
  namespace Probe
  {
    struct Description {
      using HyperbolicSystem = Probe::HyperbolicSystem;

      template <int dim, typename Number = double>
      using HyperbolicSystemView = Probe::HyperbolicSystemView<dim, Number>;

      using ParabolicSystem = Probe::ParabolicSystem;

#ifdef PROBE_PARABOLIC
      template <int dim, typename Number = double>
      using ParabolicSolver = Probe::ParabolicSolver<Description, dim, Number>;
#else
      template <int dim, typename Number = double>
      using ParabolicSolver = ryujin::StubSolver<Description, dim, Number>;
#endif

      template <int dim, typename Number = double>
      using Indicator = Probe::Indicator<dim, Number>;

      template <int dim, typename Number = double>
      using Limiter = Probe::Limiter<dim, Number>;

      template <int dim, typename Number = double>
      using RiemannSolver = Probe::RiemannSolver<dim, Number>;
    };
  } // namespace Probe
} // namespace ryujin
