#include "s_sort.h"
