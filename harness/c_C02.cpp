#include "s_elem.h"
