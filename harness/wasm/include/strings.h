#include "string.h"
