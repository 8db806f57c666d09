#include "librom.h"
