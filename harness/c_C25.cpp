#include "s_tlife.h"
