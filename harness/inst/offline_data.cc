#include "offline_data.template.h"
#include <compile_time_options.h>
namespace ryujin {
template class OfflineData<VDIM, NUMBER>;
#ifdef VDIM2
template class OfflineData<VDIM2, NUMBER>;
#endif
#ifdef VDIM3
template class OfflineData<VDIM3, NUMBER>;
#endif
}
