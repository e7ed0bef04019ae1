#include "s_dist.h"
