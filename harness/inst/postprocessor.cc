#include "postprocessor.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class Postprocessor<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class Postprocessor<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class Postprocessor<Description, VDIM3, NUMBER>;
#endif
}
