#include "s_ddp.h"
