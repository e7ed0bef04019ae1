// C01: the workloads of the other properties, watched for memory errors only
#define VH_MEMONLY
#define VH_PART
#include "s_nn.h"
#include "s_opt.h"
#include "s_sched.h"
