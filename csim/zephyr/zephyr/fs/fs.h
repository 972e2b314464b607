#include "zsim.h"
