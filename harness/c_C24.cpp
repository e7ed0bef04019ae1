#include "s_tcp.h"
