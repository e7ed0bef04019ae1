// C01: the workloads of the other properties, watched for memory errors only
#define VH_MEMONLY
#include "s_elem.h"
#include "s_reduce.h"
#include "s_create.h"
