#include "s_half.h"
