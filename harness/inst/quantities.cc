#include "quantities.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class Quantities<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class Quantities<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class Quantities<Description, VDIM3, NUMBER>;
#endif
}
