#include "mesh_adaptor.template.h"
#include <instantiate.h>
#include <compile_time_options.h>
namespace ryujin {
template class MeshAdaptor<Description, VDIM, NUMBER>;
#ifdef VDIM2
template class MeshAdaptor<Description, VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class MeshAdaptor<Description, VDIM3, NUMBER>;
#endif
}
