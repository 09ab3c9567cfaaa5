#include "parabolic_module.template.h"
#include <instantiate.h>
#define INST(dim, stages)                                                      \
  template void ParabolicModule<Description, dim, NUMBER>::step<stages>(       \
      const StateVector &,                                                     \
      const NUMBER,                                                            \
      std::array<std::reference_wrapper<const StateVector>, stages>,           \
      const std::array<NUMBER, stages>,                                        \
      StateVector &,                                                           \
      NUMBER) const;
#define ALL(dim)                                                               \
  template class ParabolicModule<Description, dim, NUMBER>;                    \
  INST(dim, 0) INST(dim, 1) INST(dim, 2) INST(dim, 3)
namespace ryujin
{
  ALL(VDIM)
#ifdef VDIM2
  ALL(VDIM2)
#endif
#ifdef VDIM3
  ALL(VDIM3)
#endif
} // namespace ryujin
