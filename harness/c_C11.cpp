#include "s_own.h"
