#include "s_serial.h"
