// C01: the workloads of the other properties, watched for memory errors only
#define VH_MEMONLY
#define VH_PART
#include "s_shape.h"
#include "s_sort.h"
#include "s_linalg.h"
