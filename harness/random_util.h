#pragma once
#include <k52/common/random.h>
#include <cstdlib>
#include "sym.h"
#include "util.h"
extern "C" { extern int (*sym_rand_hook)(); }
