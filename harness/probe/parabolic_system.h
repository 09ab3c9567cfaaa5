#pragma once
#include <compile_time_options.h>
#include <convenience_macros.h>
#include <deal.II/base/parameter_acceptor.h>

namespace ryujin
{
  namespace Probe
  {
    class ParabolicSystem final : public dealii::ParameterAcceptor
    {
    public:
#ifdef PROBE_PARABOLIC
      static inline const std::string problem_name = "ProbeParabolic";
      static constexpr bool is_identity = false;
#else
      static inline const std::string problem_name = "Identity";
      static constexpr bool is_identity = true;
#endif
      ParabolicSystem(const std::string &subsection = "/ParabolicSystem")
          : ParameterAcceptor(subsection)
      {
      }
    };
  } // namespace Probe
} // namespace ryujin
