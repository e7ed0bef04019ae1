#include "s_train.h"
