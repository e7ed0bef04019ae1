#include "s_threads.h"
