#include "s_reduce.h"
