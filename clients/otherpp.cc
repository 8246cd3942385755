#include "other.h"
