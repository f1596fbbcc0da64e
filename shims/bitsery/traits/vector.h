#pragma once
#include <vector>
#include "core/std_defaults.h"
