#include "s_linalg.h"
