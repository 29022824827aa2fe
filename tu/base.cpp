// standard headers first: the program below is included inside a namespace
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/parsing.hpp"
#include "probe.hpp"

// the program, in a namespace that the syntax tree filter selects
#ifndef CFT_PLAIN_MAIN
namespace cft_program {
#include "main.cpp"
}
#else
#define main cft_program_main
#include "main.cpp"
#undef main
#endif
