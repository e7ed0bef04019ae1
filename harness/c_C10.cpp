#include "s_nograd.h"
