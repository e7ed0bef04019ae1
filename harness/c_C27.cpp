#include "s_dsamp.h"
