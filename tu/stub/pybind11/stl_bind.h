#pragma once
#include "pybind11.h"
namespace cft_py { struct sequences_are_converted; }
