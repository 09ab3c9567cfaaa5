#include "discretization.template.h"
#include <compile_time_options.h>
namespace ryujin {
template class Discretization<VDIM>;
#ifdef VDIM2
template class Discretization<VDIM2>;
#endif
#ifdef VDIM3
template class Discretization<VDIM3>;
#endif
}
