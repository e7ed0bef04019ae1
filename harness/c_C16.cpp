#include "s_sched.h"
