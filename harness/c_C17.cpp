#include "s_module.h"
