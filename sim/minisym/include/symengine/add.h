#pragma once
#include "symengine/minisym.h"
