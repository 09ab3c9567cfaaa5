#pragma once
// The probe equation: a linear conservation law whose state records, in its
// components, the linear combination of stages that produced it.
//   0          z     static carrier field (given function of the position)
//   1..K       s_k   source tokens:  d/dt s_k = 1 when evaluated in stage k
//   K+1..2K    y_k   flux tokens:    d/dt y_k + d/dx z = 0 in stage k
//   2K+1       p     parabolic token (changed by the parabolic solver only)
//   2K+2       clk   d/dt clk = 1
#include "control.h"

#include <convenience_macros.h>
#include <discretization.h>
#include <multicomponent_vector.h>
#include <openmp.h>
#include <patterns_conversion.h>
#include <simd.h>
#include <state_vector.h>

#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/tensor.h>

#include <array>
#include <functional>

namespace ryujin
{
  namespace Probe
  {
    template <int dim, typename Number>
    class HyperbolicSystemView;

    class HyperbolicSystem final : public dealii::ParameterAcceptor
    {
    public:
      static inline const std::string problem_name = "Probe";

      HyperbolicSystem(const std::string &subsection = "/HyperbolicSystem")
          : ParameterAcceptor(subsection)
      {
        marker_ = 0.;
        add_parameter("probe marker", marker_, "A marker value");
      }

      template <int dim, typename Number>
      auto view() const
      {
        return HyperbolicSystemView<dim, Number>{*this};
      }

      double marker_;

    private:
      template <int dim, typename Number>
      friend class HyperbolicSystemView;
    };


    template <int dim, typename Number>
    class HyperbolicSystemView
    {
    public:
      HyperbolicSystemView(const HyperbolicSystem &hyperbolic_system)
          : hyperbolic_system_(hyperbolic_system)
      {
      }

      template <int dim2, typename Number2>
      auto view() const
      {
        return HyperbolicSystemView<dim2, Number2>{hyperbolic_system_};
      }

    private:
      const HyperbolicSystem &hyperbolic_system_;

    public:
      using ScalarNumber = typename get_value_type<Number>::type;

      static constexpr unsigned int K = probe::K;
      static constexpr unsigned int problem_dimension = 2 * K + 3;

      using state_type = dealii::Tensor<1, problem_dimension, Number>;
      using flux_type =
          dealii::Tensor<1, problem_dimension, dealii::Tensor<1, dim, Number>>;
      using flux_contribution_type = flux_type;

      static std::array<std::string, problem_dimension> names()
      {
        std::array<std::string, problem_dimension> n;
        n[0] = "z";
        for (unsigned int k = 0; k < K; ++k) {
          n[1 + k] = "s" + std::to_string(k);
          n[1 + K + k] = "y" + std::to_string(k);
        }
        n[2 * K + 1] = "p";
        n[2 * K + 2] = "clk";
        return n;
      }

      static inline const auto component_names = names();

      static std::array<std::string, problem_dimension> prim_names()
      {
        auto n = names();
        n[0] = "zprim";
        return n;
      }
      static inline const auto primitive_component_names = prim_names();

      static constexpr unsigned int n_precomputed_values = 1;
      using precomputed_type = std::array<Number, n_precomputed_values>;
      static inline const auto precomputed_names =
          std::array<std::string, n_precomputed_values>{"pre"};

      static constexpr unsigned int n_initial_precomputed_values = 0;
      using initial_precomputed_type =
          std::array<Number, n_initial_precomputed_values>;
      static inline const auto initial_precomputed_names =
          std::array<std::string, n_initial_precomputed_values>{};

      using StateVector = Vectors::
          StateVector<ScalarNumber, problem_dimension, n_precomputed_values>;
      using HyperbolicVector =
          Vectors::MultiComponentVector<ScalarNumber, problem_dimension>;
      using PrecomputedVector =
          Vectors::MultiComponentVector<ScalarNumber, n_precomputed_values>;
      using InitialPrecomputedVector =
          Vectors::MultiComponentVector<ScalarNumber,
                                        n_initial_precomputed_values>;

      static constexpr unsigned int n_precomputation_cycles = 1;

      template <typename DISPATCH, typename SPARSITY>
      void precomputation_loop(unsigned int /*cycle*/,
                               const DISPATCH &dispatch_check,
                               const SPARSITY &sparsity_simd,
                               StateVector &state_vector,
                               unsigned int left,
                               unsigned int right) const
      {
        const auto &U = std::get<0>(state_vector);
        auto &precomputed = std::get<1>(state_vector);

        unsigned int stride_size = get_stride_size<Number>;
        RYUJIN_OMP_FOR
        for (unsigned int i = left; i < right; i += stride_size) {
          const unsigned int row_length = sparsity_simd.row_length(i);
          if (row_length == 1)
            continue;
          dispatch_check(i);
          const auto U_i = U.template get_tensor<Number>(i);
          const precomputed_type prec{Number(3.) * U_i[0] + U_i[2 * K + 2]};
          precomputed.template write_tensor<Number>(prec, i);
        }

        /* called twice per sweep: (n_internal, n_owned) and (0, n_internal) */
        RYUJIN_OMP_SINGLE
        {
          if (left == 0)
            record_sweep(sparsity_simd, U);
        }
      }

      template <typename SPARSITY, typename VEC>
      static void record_sweep(const SPARSITY &sparsity, const VEC &U)
      {
        const int n = ++probe::n_prep;
        probe::poll();
        if (probe::log == nullptr)
          return;
        std::ostringstream s;
        s << "{\"e\":\"prep\",\"n\":" << n << ",\"t\":[";
        std::sort(probe::bc_times.begin(), probe::bc_times.end());
        for (unsigned int k = 0; k < probe::bc_times.size(); ++k)
          s << (k ? "," : "") << probe::num(probe::bc_times[k]);
        s << "],\"poserr\":" << probe::num(probe::bc_position_error);
        if (probe::log_state) {
          const unsigned int n_owned =
              U.get_partitioner()->locally_owned_size() / problem_dimension;
          double cmin = 1e300, cmax = -1e300;
          unsigned int pick = n_owned;
          for (unsigned int i = 0; i < n_owned; ++i) {
            if (sparsity.row_length(i) == 1)
              continue;
            if (pick == n_owned)
              pick = i;
            const auto U_i = U.get_tensor(i);
            cmin = std::min(cmin, double(scalar(U_i[2 * K + 2])));
            cmax = std::max(cmax, double(scalar(U_i[2 * K + 2])));
          }
          if (probe::node >= 0)
            pick = probe::node;
          s << ",\"clk\":[" << probe::num(cmin) << "," << probe::num(cmax)
            << "]";
          if (pick < n_owned) {
            const auto U_i = U.get_tensor(pick);
            s << ",\"U\":[";
            for (unsigned int d = 0; d < problem_dimension; ++d)
              s << (d ? "," : "") << probe::num(scalar(U_i[d]));
            s << "]";
          }
        }
        s << "}";
        probe::bc_times.clear();
        probe::bc_position_error = 0.;
        probe::emit(s.str());
        if (probe::exit_at_sweep >= 0 && n >= probe::exit_at_sweep)
          std::_Exit(77);
      }

      template <typename T>
      static double scalar(const T &x)
      {
        if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>)
          return x;
        else
          return x[0];
      }

      static int stage(const state_type &U)
      {
        int k = 0;
        for (unsigned int d = 0; d < K; ++d)
          if (std::abs(scalar(U[1 + d])) + std::abs(scalar(U[1 + K + d])) >
              1.e-10)
            k = d + 1;
        return std::min(k, int(K) - 1);
      }

      bool is_admissible(const state_type & /*U*/) const { return true; }

      template <typename Lambda>
      state_type apply_boundary_conditions(
          const dealii::types::boundary_id id,
          const state_type &U,
          const dealii::Tensor<1, dim, Number> & /*normal*/,
          const Lambda &get_dirichlet_data) const
      {
        if (id == Boundary::dirichlet) {
          probe::in_bc = true;
          const auto data = get_dirichlet_data();
          probe::in_bc = false;
          probe::bc_position_error = std::max(
              probe::bc_position_error, std::abs(scalar(data[0] - U[0])));
        }
        return U;
      }

      flux_contribution_type f(const state_type &U) const
      {
        flux_contribution_type r;
        r[1 + K + stage(U)][0] = U[0];
        return r;
      }

      flux_contribution_type
      flux_contribution(const PrecomputedVector & /*pv*/,
                        const InitialPrecomputedVector & /*piv*/,
                        const unsigned int /*i*/,
                        const state_type &U_i) const
      {
        return f(U_i);
      }

      flux_contribution_type
      flux_contribution(const PrecomputedVector & /*pv*/,
                        const InitialPrecomputedVector & /*piv*/,
                        const unsigned int * /*js*/,
                        const state_type &U_j) const
      {
        return f(U_j);
      }

      state_type
      flux_divergence(const flux_contribution_type &flux_i,
                      const flux_contribution_type &flux_j,
                      const dealii::Tensor<1, dim, Number> &c_ij) const
      {
        state_type r;
        for (unsigned int d = 0; d < problem_dimension; ++d)
          r[d] = -(flux_i[d] + flux_j[d]) * c_ij;
        return r;
      }

      static constexpr bool have_high_order_flux = false;

      state_type high_order_flux_divergence(
          const flux_contribution_type &,
          const flux_contribution_type &,
          const dealii::Tensor<1, dim, Number> &) const = delete;

      static constexpr bool have_source_terms = true;

      state_type source(const state_type &U) const
      {
        state_type r;
        r[1 + stage(U)] = Number(1.);
        r[2 * K + 2] = Number(1.);
        return r;
      }

      state_type nodal_source(const PrecomputedVector & /*pv*/,
                              const unsigned int /*i*/,
                              const state_type &U_i,
                              const ScalarNumber /*tau*/) const
      {
        return source(U_i);
      }

      state_type nodal_source(const PrecomputedVector & /*pv*/,
                              const unsigned int * /*js*/,
                              const state_type &U_j,
                              const ScalarNumber /*tau*/) const
      {
        return source(U_j);
      }

      template <typename ST>
      state_type expand_state(const ST &state) const
      {
        state_type r;
        for (unsigned int d = 0; d < problem_dimension; ++d)
          r[d] = state[d];
        return r;
      }

      state_type from_primitive_state(const state_type &primitive_state) const
      {
        auto r = primitive_state;
        r[0] = r[0] / ScalarNumber(2.);
        return r;
      }

      state_type to_primitive_state(const state_type &state) const
      {
        auto r = state;
        r[0] = r[0] * ScalarNumber(2.);
        return r;
      }

      template <typename Lambda>
      state_type apply_galilei_transform(const state_type &state,
                                         const Lambda & /*lambda*/) const
      {
        return state;
      }
    };
  } // namespace Probe
} // namespace ryujin
