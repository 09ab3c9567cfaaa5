#include "initial_state_library.template.h"
#ifndef VDIM2
#define VDIM2 0
#endif
namespace ryujin
{
  template class InitialStateLibrary<Description, VDIM, NUMBER>;
#if VDIM2
  template class InitialStateLibrary<Description, VDIM2, NUMBER>;
#endif
} // namespace ryujin
