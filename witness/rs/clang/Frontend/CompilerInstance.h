#include "clang_part.h"
