#include "s_pginit.h"
