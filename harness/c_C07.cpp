#include "s_nn.h"
