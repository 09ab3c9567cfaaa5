#include "time_integrator.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class TimeIntegrator<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class TimeIntegrator<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class TimeIntegrator<Description, VDIM3, NUMBER>;
#endif
}
