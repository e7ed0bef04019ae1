#include "s_create.h"
