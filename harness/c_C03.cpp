#include "s_shape.h"
