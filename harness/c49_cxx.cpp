#include "c49_arith.h"
