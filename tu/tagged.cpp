// The library with user-defined numeric types.
// standard headers first: the program below is included inside a namespace
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "TaggedScalar.hpp"
#define CFT_CIDX_TYPE ext::TaggedScalar<TAG_CIDX, struct COL>
#define CFT_RIDX_TYPE ext::TaggedScalar<TAG_RIDX, struct ROW>
#define CFT_REAL_TYPE ext::TaggedScalar<TAG_REAL, struct REAL>
#include "utils/custom_types.hpp"
namespace cft {
template <typename T, typename TAG>
struct native<ext::TaggedScalar<T, TAG>> {
    using type = T;
};
}  // namespace cft
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/parsing.hpp"
namespace cft_program {
#include "main.cpp"
}
