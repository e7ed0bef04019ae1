#include "s_data.h"
