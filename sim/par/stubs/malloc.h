#pragma once
#include "cstdlib"
