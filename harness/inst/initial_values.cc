#include "initial_values.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class InitialValues<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class InitialValues<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class InitialValues<Description, VDIM3, NUMBER>;
#endif
}
