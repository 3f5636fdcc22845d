#pragma once
#include "isl/miniisl.h"
