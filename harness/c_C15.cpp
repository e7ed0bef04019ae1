#include "s_opt.h"
