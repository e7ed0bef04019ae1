#include "s_fstore.h"
