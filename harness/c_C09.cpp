#include "s_book.h"
