#include "s_grad.h"
