#include "vtu_output.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class VTUOutput<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class VTUOutput<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class VTUOutput<Description, VDIM3, NUMBER>;
#endif
}
