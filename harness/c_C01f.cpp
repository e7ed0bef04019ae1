// C01: the workloads of the other properties, watched for memory errors only
#define VH_MEMONLY
#define VH_PART
#include "s_rand.h"
#include "s_dist.h"
#include "s_half.h"
