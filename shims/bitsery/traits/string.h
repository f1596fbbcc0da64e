#pragma once
#include <string>
#include "core/std_defaults.h"
