#include "s_small.h"
