#include "s_nccl.h"
