#include "s_damage.h"
