// C01: the workloads of the other properties, watched for memory errors only
#define VH_MEMONLY
#define VH_PART
#include "s_grad.h"
#include "s_book.h"
#include "s_nograd.h"
#include "s_own.h"
