// Client code of the public API: it is never run, only analysed. Every function instantiates templates of the library
// so that their bodies appear, type-checked, in the syntax tree.
// standard headers first: the program below is included inside a namespace
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "algorithms/Refinement.hpp"
#include "core/CliArgs.hpp"
#include "core/parsing.hpp"
#include "probe.hpp"

#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace cft {
namespace client {
using Vec  = std::vector<int32_t>;
using VecF = std::vector<float>;
struct Even {
    bool operator()(int32_t v) const { return v % 2 == 0; }
};
struct Neg {
    int32_t operator()(int32_t v) const { return -v; }
};
struct Cost {
    real_t operator()(CidxAndCost const& c) const { return c.cost; }
};

// random
inline float    canon_f_128p(Xoshiro128P& r) { return canonical_gen<float>(r); }
inline float    canon_f_256pp(Xoshiro256PP& r) { return canonical_gen<float>(r); }
inline double   canon_d_256p(Xoshiro256P& r) { return canonical_gen<double>(r); }
inline double   canon_d_128pp(Xoshiro128PP& r) { return canonical_gen<double>(r); }
inline long double canon_l_256p(Xoshiro256P& r) { return canonical_gen<long double>(r); }
inline long double canon_l_128pp(Xoshiro128PP& r) { return canonical_gen<long double>(r); }
inline float    canon_f_256p(Xoshiro256P& r) { return canonical_gen<float>(r); }
inline double   canon_d_256pp(Xoshiro256PP& r) { return canonical_gen<double>(r); }
inline uint64_t next_256pp(Xoshiro256PP& r) { return r(); }
inline uint64_t next_256p(Xoshiro256P& r) { return r(); }
inline uint32_t next_128pp(Xoshiro128PP& r) { return r(); }
inline uint32_t next_128p(Xoshiro128P& r) { return r(); }
inline Xoshiro128P  seed_128p(uint64_t s) { return Xoshiro128P(s); }
inline Xoshiro256PP seed_256pp(uint64_t s) { return Xoshiro256PP(s); }
inline float   real_f(Xoshiro128P& r, float lo, float hi) { return rnd_real(r, lo, hi); }
inline double  real_d(Xoshiro256P& r, double lo, double hi) { return rnd_real(r, lo, hi); }
inline int32_t dice_i32(Xoshiro128PP& r, int32_t lo, int32_t hi) { return roll_dice(r, lo, hi); }
inline int64_t dice_i64(Xoshiro256PP& r, int64_t lo, int64_t hi) { return roll_dice(r, lo, hi); }
inline uint64_t dice_u64(Xoshiro256PP& r, uint64_t lo, uint64_t hi) { return roll_dice(r, lo, hi); }
inline bool    coin_p(Xoshiro128P& r, double p) { return coin_flip(r, p); }
inline bool    coin_64(Xoshiro256PP& r, double p) { return coin_flip(r, p); }
inline bool    coin_half(Xoshiro128P& r) { return coin_flip(r); }

// ordering
using SA = SortedArray<int32_t, 4>;
using SK = SortedArray<CidxAndCost, 4, Cost>;
inline void        sa_insert(SA& a, int32_t v) { a.insert(v); }
inline bool        sa_try_insert(SA& a, int32_t v) { return a.try_insert(v); }
inline void        sa_clear(SA& a) { a.clear(); }
inline int32_t     sa_back(SA const& a) { return a.back(); }
inline size_t      sa_size(SA const& a) { return a.size(); }
inline int32_t     sa_at(SA const& a, size_t i) { return a[i]; }
inline int32_t     sa_sum(SA const& a) { int32_t s = 0; for (int32_t x : a) s = 3 * s + x; return s; }
inline bool        sk_try_insert(SK& a, CidxAndCost v) { return a.try_insert(v); }
inline void        sk_insert(SK& a, CidxAndCost v) { a.insert(v); }
inline void        sort_plain(Vec& v) { cft::sort(v); }
inline void        sort_key(Vec& v) { cft::sort(v, Neg{}); }
inline void        sort_cost(std::vector<CidxAndCost>& v) { cft::sort(v, Cost{}); }
inline void        nth_plain(Vec& v, size_t n) { cft::nth_element(v, n); }
inline void        nth_key(Vec& v, size_t n) { cft::nth_element(v, n, Neg{}); }
inline int32_t     rmin_plain(Vec const& v) { return range_min(v); }
inline int32_t     rmin_key(Vec const& v) { return range_min(v, Neg{}); }
inline CidxAndCost rmin_cost(std::vector<CidxAndCost> const& v) { return range_min(v, Cost{}); }
inline void        rm_if(Vec& v) { remove_if(v, Even{}); }
inline bool        any_even(Vec const& v) { return any(v, Even{}); }
inline bool        all_even(Vec const& v) { return all(v, Even{}); }
inline int32_t     min2(int32_t a, int32_t b) { return cft::min(a, b); }
inline int32_t     max2(int32_t a, int32_t b) { return cft::max(a, b); }
inline int32_t     min3(int32_t a, int32_t b, int32_t c) { return cft::min(a, b, c); }
inline int32_t     max3(int32_t a, int32_t b, int32_t c) { return cft::max(a, b, c); }
inline float       minf(float a, float b) { return cft::min(a, b); }
inline float       maxf(float a, float b) { return cft::max(a, b); }
inline int32_t     clamp_i(int32_t v, int32_t lo, int32_t hi) { return cft::clamp(v, lo, hi); }
inline float       clamp_f(float v, float lo, float hi) { return cft::clamp(v, lo, hi); }
inline int32_t     abs_i(int32_t v) { return cft::abs(v); }
inline float       abs_f(float v) { return cft::abs(v); }
inline size_t      size_v(Vec const& v) { return cft::size(v); }
inline size_t      size_a() { int32_t const a[5] = {1, 2, 3, 4, 5}; return cft::size(a); }

// strings
inline StringView  sv_prefix(StringView s, size_t n) { return s.remove_prefix(n); }
inline StringView  sv_suffix(StringView s, size_t n) { return s.remove_suffix(n); }
inline StringView  sv_sub(StringView s, size_t a, size_t b) { return s.get_substr(a, b); }
inline size_t      sv_first(StringView s) { return s.find_first_true(IsSpace{}); }
inline size_t      sv_last(StringView s) { return s.find_last_true(IsSpace{}); }
inline int         sv_compare(StringView a, StringView b) { return a.compare(b); }
inline bool        sv_eq(StringView a, StringView b) { return a == b; }
inline bool        sv_ne(StringView a, StringView b) { return a != b; }
inline bool        sv_lt(StringView a, StringView b) { return a < b; }
inline bool        sv_le(StringView a, StringView b) { return a <= b; }
inline bool        sv_gt(StringView a, StringView b) { return a > b; }
inline bool        sv_ge(StringView a, StringView b) { return a >= b; }
inline StringView  sv_ltrim(StringView s) { return ltrim(s); }
inline StringView  sv_rtrim(StringView s) { return rtrim(s); }
inline StringView  sv_trim(StringView s) { return trim(s); }
inline size_t      sv_size(StringView s) { return s.size(); }
inline bool        sv_empty(StringView s) { return s.empty(); }
inline char        sv_at(StringView s, size_t i) { return s[i]; }
inline StringView  sv_from_str(std::string const& s) { return StringView(s); }
inline StringView  sv_from_sz(char const* s, size_t n) { return StringView(s, n); }
inline StringView  sv_from_range(char const* s, char const* e) { return StringView(s, e); }
inline StringView  sv_from_c(char const* s) { return StringView(s); }
inline std::string sv_to_cpp(StringView s) { return s.to_cpp_string(); }

// spans and matrices
using SpI = Span<Vec::const_iterator>;
inline size_t  sp_size(SpI s) { return s.size(); }
inline bool    sp_empty(SpI s) { return s.empty(); }
inline int32_t sp_back(SpI s) { return s.back(); }
inline int32_t sp_at(SpI s, size_t i) { return s[i]; }
inline int32_t sp_make_sz(Vec const& v, size_t n) { int32_t r = 0; for (int32_t x : make_span(v.begin(), n)) r = 3 * r + x; return r; }
inline int32_t sp_make_rng(Vec const& v) { int32_t r = 0; for (int32_t x : make_span(v.begin(), v.end())) r = 3 * r + x; return r; }
using Mat = SparseBinMat<int32_t>;
inline void    mat_clear(Mat& m) { m.clear(); }
inline void    mat_push(Mat& m, Vec const& v) { m.push_back(v); }
inline void    mat_push_il(Mat& m, int32_t a, int32_t b) { m.push_back({a, b}); }
inline size_t  mat_size(Mat const& m) { return m.size(); }
inline bool    mat_empty(Mat const& m) { return m.empty(); }
inline size_t  mat_row_size(Mat const& m, size_t i) { return m[i].size(); }
inline int32_t mat_at(Mat const& m, size_t i, size_t k) { return m[i][k]; }

// cover counters
inline void   cc_reset(CoverCounters& c, size_t n) { c.reset(n); }
inline size_t cc_cover(CoverCounters& c, Vec const& v) { return c.cover(v); }
inline size_t cc_uncover(CoverCounters& c, Vec const& v) { return c.uncover(v); }
inline bool   cc_red_cover(CoverCounters const& c, Vec const& v) { return c.is_redundant_cover(v); }
inline bool   cc_red_uncover(CoverCounters const& c, Vec const& v) { return c.is_redundant_uncover(v); }
inline size_t cc_size(CoverCounters const& c) { return c.size(); }
inline uint32_t cc_at(CoverCounters const& c, size_t i) { return c[i]; }
inline CoverCounters cc_default() { return CoverCounters(); }
inline CoverCounters cc_make(size_t n) { return CoverCounters(n); }

// time
inline double  ch_elapsed_sec(Chrono<> const& c) { return c.elapsed<sec>(); }
inline double  ch_elapsed_msec(Chrono<> const& c) { return c.elapsed<msec>(); }
inline int64_t ch_elapsed(Chrono<> const& c) { return c.elapsed(); }
inline double  ch_restart_sec(Chrono<>& c) { return c.restart<sec>(); }
inline double  ch_restart_msec(Chrono<msec>& c) { return c.restart<usec>(); }
inline int64_t ch_restart(Chrono<>& c) { return c.restart(); }
inline double  ch_cast(double t) { return Chrono<>::time_cast<sec>(t); }
inline double  ch_cast_up(double t) { return Chrono<sec>::time_cast<msec>(t); }
inline double  ch_cast_min(double t) { return Chrono<minutes>::time_cast<sec>(t); }

// numbers
inline int16_t  num_i16(StringView s) { return string_to<int16_t>::parse(s); }
inline int32_t  num_i32(StringView s) { return string_to<int32_t>::parse(s); }
inline int64_t  num_i64(StringView s) { return string_to<int64_t>::parse(s); }
inline uint32_t num_u32(StringView s) { return string_to<uint32_t>::parse(s); }
inline uint64_t num_u64(StringView s) { return string_to<uint64_t>::parse(s); }
inline float    num_f32(StringView s) { return string_to<float>::parse(s); }
inline double   num_f64(StringView s) { return string_to<double>::parse(s); }
inline int16_t  eat_i16(StringView& s) { return string_to<int16_t>::consume(s); }
inline int32_t  eat_i32(StringView& s) { return string_to<int32_t>::consume(s); }
inline int64_t  eat_i64(StringView& s) { return string_to<int64_t>::consume(s); }
inline uint32_t eat_u32(StringView& s) { return string_to<uint32_t>::consume(s); }
inline uint64_t eat_u64(StringView& s) { return string_to<uint64_t>::consume(s); }
inline float    eat_f32(StringView& s) { return string_to<float>::consume(s); }
inline double   eat_f64(StringView& s) { return string_to<double>::consume(s); }

// conversions
inline cidx_t to_cidx(size_t v) { return as_cidx(v); }
inline ridx_t to_ridx(size_t v) { return as_ridx(v); }
inline real_t to_real(double v) { return as_real(v); }
inline real_t to_real_i(int32_t v) { return as_real(v); }
inline cidx_t csize_v(Vec const& v) { return csize(v); }
inline ridx_t rsize_v(Vec const& v) { return rsize(v); }

// opening files
inline bool fl_open_str(std::string const& path) {
    auto it = FileLineIterator(path);
    return it.ended();
}
inline bool fl_open_cstr(char const* path) {
    auto it = FileLineIterator(path);
    return it.ended();
}

// verbosity
inline void pr0(Environment const& env, int32_t a) { print<0>(env, "{}", a); }
inline void pr3(Environment const& env, int32_t a) { print<3>(env, "{}", a); }
inline void pr5(Environment const& env, int32_t a) { print<5>(env, "{}", a); }

// instances and algorithms, as a user of the headers calls them
inline CftResult use_run(Environment const& env, Instance const& inst, Solution const& ws) { return run(env, inst, ws); }
inline CftResult use_run_cold(Environment const& env, Instance const& inst) { return run(env, inst); }
inline void      use_fill(Instance& inst, ridx_t n) { fill_rows_from_cols(inst.cols, n, inst.rows); }
inline void      use_clear(Instance& inst) { clear_inst(inst); }
inline void      use_push(Instance const& a, cidx_t j, Instance& b) { push_back_col_from(a, j, b); }
inline void      use_redcosts(Instance const& inst, std::vector<real_t> const& u, std::vector<real_t>& rc) { compute_reduced_costs(inst, u, rc); }
inline Environment default_env() { return Environment{}; }
}  // namespace client
}  // namespace cft

// the program, in a namespace that the syntax tree filter selects
#ifndef CFT_PLAIN_MAIN
namespace cft_program {
#include "main.cpp"
}
#else
#define main cft_program_main
#include "main.cpp"
#undef main
#endif
