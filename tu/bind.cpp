// The binding file, against stub declarations of pybind11. It is never run, only analysed.
// standard headers first: helpers are found by the name of their namespace
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/Instance.hpp"
#include "core/cft.hpp"
#include "core/parsing.hpp"
#include "probe.hpp"
#include <pybind11/operators.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#ifdef VP_BIND_PLAIN
// the helpers of the binding file live in a namespace of the same name as the library's
#define local cft_bindlocal
#include "pycft/_bindings.cpp"
#else
// inside a namespace, so that everything the file defines is found by its name
namespace cft_bindfile { namespace local {} }
namespace local { using namespace ::cft_bindfile::local; }
namespace cft_bindfile {
#include "pycft/_bindings.cpp"
}
#endif
