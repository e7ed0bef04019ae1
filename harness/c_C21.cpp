#include "s_mnist.h"
