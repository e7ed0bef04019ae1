#include "h_mem.h"
#include "s_leak.h"
