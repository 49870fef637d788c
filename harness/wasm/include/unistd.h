#pragma once
#include <stddef.h>
typedef long ssize_t; typedef long off_t;
