// C01: the workloads of the other properties, watched for memory errors only
#define VH_MEMONLY
#define VH_PART
#include "s_module.h"
#include "s_train.h"
#include "s_alloc.h"
