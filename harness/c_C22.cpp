#include "s_rand.h"
