#include "s_alloc.h"
