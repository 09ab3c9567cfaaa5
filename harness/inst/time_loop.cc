#include "time_loop.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class TimeLoop<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class TimeLoop<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class TimeLoop<Description, VDIM3, NUMBER>;
#endif
}
