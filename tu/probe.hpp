// Static members of standard templates are declarations outside the dumped namespace; these functions name the ones
// the library uses, so that the analysis knows which constant each declaration is. Never run.
#ifndef VP_PROBE_HPP
#define VP_PROBE_HPP
#include <ratio>
#include <type_traits>
#include <cstdint>
namespace cft {
namespace probe {
inline bool c_1() { return std::integral_constant<bool, true>::value; }
inline bool c_0() { return std::integral_constant<bool, false>::value; }
inline intmax_t n0_1() { return std::ratio<1LL, 1LL>::num; }
inline intmax_t d0_1() { return std::ratio<1LL, 1LL>::den; }
inline intmax_t n1_1() { return std::ratio<1LL, 60LL>::num; }
inline intmax_t d1_60() { return std::ratio<1LL, 60LL>::den; }
inline intmax_t n2_1() { return std::ratio<1LL, 1000LL>::num; }
inline intmax_t d2_1000() { return std::ratio<1LL, 1000LL>::den; }
inline intmax_t n3_1() { return std::ratio<1LL, 3600LL>::num; }
inline intmax_t d3_3600() { return std::ratio<1LL, 3600LL>::den; }
inline intmax_t n4_1() { return std::ratio<1LL, 60000LL>::num; }
inline intmax_t d4_60000() { return std::ratio<1LL, 60000LL>::den; }
inline intmax_t n5_1() { return std::ratio<1LL, 1000000LL>::num; }
inline intmax_t d5_1000000() { return std::ratio<1LL, 1000000LL>::den; }
inline intmax_t n6_1() { return std::ratio<1LL, 3600000LL>::num; }
inline intmax_t d6_3600000() { return std::ratio<1LL, 3600000LL>::den; }
inline intmax_t n7_1() { return std::ratio<1LL, 60000000LL>::num; }
inline intmax_t d7_60000000() { return std::ratio<1LL, 60000000LL>::den; }
inline intmax_t n8_1() { return std::ratio<1LL, 1000000000LL>::num; }
inline intmax_t d8_1000000000() { return std::ratio<1LL, 1000000000LL>::den; }
inline intmax_t n9_1() { return std::ratio<1LL, 3600000000LL>::num; }
inline intmax_t d9_3600000000() { return std::ratio<1LL, 3600000000LL>::den; }
inline intmax_t n10_1() { return std::ratio<1LL, 60000000000LL>::num; }
inline intmax_t d10_60000000000() { return std::ratio<1LL, 60000000000LL>::den; }
inline intmax_t n11_1() { return std::ratio<1LL, 1000000000000LL>::num; }
inline intmax_t d11_1000000000000() { return std::ratio<1LL, 1000000000000LL>::den; }
inline intmax_t n12_1() { return std::ratio<1LL, 3600000000000LL>::num; }
inline intmax_t d12_3600000000000() { return std::ratio<1LL, 3600000000000LL>::den; }
inline intmax_t n13_3() { return std::ratio<3LL, 50LL>::num; }
inline intmax_t d13_50() { return std::ratio<3LL, 50LL>::den; }
inline intmax_t n14_3() { return std::ratio<3LL, 50000LL>::num; }
inline intmax_t d14_50000() { return std::ratio<3LL, 50000LL>::den; }
inline intmax_t n15_3() { return std::ratio<3LL, 50000000LL>::num; }
inline intmax_t d15_50000000() { return std::ratio<3LL, 50000000LL>::den; }
inline intmax_t n16_3() { return std::ratio<3LL, 50000000000LL>::num; }
inline intmax_t d16_50000000000() { return std::ratio<3LL, 50000000000LL>::den; }
inline intmax_t n17_5() { return std::ratio<5LL, 18LL>::num; }
inline intmax_t d17_18() { return std::ratio<5LL, 18LL>::den; }
inline intmax_t n18_9() { return std::ratio<9LL, 2500LL>::num; }
inline intmax_t d18_2500() { return std::ratio<9LL, 2500LL>::den; }
inline intmax_t n19_9() { return std::ratio<9LL, 2500000LL>::num; }
inline intmax_t d19_2500000() { return std::ratio<9LL, 2500000LL>::den; }
inline intmax_t n20_9() { return std::ratio<9LL, 2500000000LL>::num; }
inline intmax_t d20_2500000000() { return std::ratio<9LL, 2500000000LL>::den; }
inline intmax_t n21_18() { return std::ratio<18LL, 5LL>::num; }
inline intmax_t d21_5() { return std::ratio<18LL, 5LL>::den; }
inline intmax_t n22_50() { return std::ratio<50LL, 3LL>::num; }
inline intmax_t d22_3() { return std::ratio<50LL, 3LL>::den; }
inline intmax_t n23_60() { return std::ratio<60LL, 1LL>::num; }
inline intmax_t d23_1() { return std::ratio<60LL, 1LL>::den; }
inline intmax_t n24_1000() { return std::ratio<1000LL, 1LL>::num; }
inline intmax_t d24_1() { return std::ratio<1000LL, 1LL>::den; }
inline intmax_t n25_2500() { return std::ratio<2500LL, 9LL>::num; }
inline intmax_t d25_9() { return std::ratio<2500LL, 9LL>::den; }
inline intmax_t n26_3600() { return std::ratio<3600LL, 1LL>::num; }
inline intmax_t d26_1() { return std::ratio<3600LL, 1LL>::den; }
inline intmax_t n27_50000() { return std::ratio<50000LL, 3LL>::num; }
inline intmax_t d27_3() { return std::ratio<50000LL, 3LL>::den; }
inline intmax_t n28_60000() { return std::ratio<60000LL, 1LL>::num; }
inline intmax_t d28_1() { return std::ratio<60000LL, 1LL>::den; }
inline intmax_t n29_1000000() { return std::ratio<1000000LL, 1LL>::num; }
inline intmax_t d29_1() { return std::ratio<1000000LL, 1LL>::den; }
inline intmax_t n30_2500000() { return std::ratio<2500000LL, 9LL>::num; }
inline intmax_t d30_9() { return std::ratio<2500000LL, 9LL>::den; }
inline intmax_t n31_3600000() { return std::ratio<3600000LL, 1LL>::num; }
inline intmax_t d31_1() { return std::ratio<3600000LL, 1LL>::den; }
inline intmax_t n32_50000000() { return std::ratio<50000000LL, 3LL>::num; }
inline intmax_t d32_3() { return std::ratio<50000000LL, 3LL>::den; }
inline intmax_t n33_60000000() { return std::ratio<60000000LL, 1LL>::num; }
inline intmax_t d33_1() { return std::ratio<60000000LL, 1LL>::den; }
inline intmax_t n34_1000000000() { return std::ratio<1000000000LL, 1LL>::num; }
inline intmax_t d34_1() { return std::ratio<1000000000LL, 1LL>::den; }
inline intmax_t n35_2500000000() { return std::ratio<2500000000LL, 9LL>::num; }
inline intmax_t d35_9() { return std::ratio<2500000000LL, 9LL>::den; }
inline intmax_t n36_3600000000() { return std::ratio<3600000000LL, 1LL>::num; }
inline intmax_t d36_1() { return std::ratio<3600000000LL, 1LL>::den; }
inline intmax_t n37_50000000000() { return std::ratio<50000000000LL, 3LL>::num; }
inline intmax_t d37_3() { return std::ratio<50000000000LL, 3LL>::den; }
inline intmax_t n38_60000000000() { return std::ratio<60000000000LL, 1LL>::num; }
inline intmax_t d38_1() { return std::ratio<60000000000LL, 1LL>::den; }
inline intmax_t n39_1000000000000() { return std::ratio<1000000000000LL, 1LL>::num; }
inline intmax_t d39_1() { return std::ratio<1000000000000LL, 1LL>::den; }
inline intmax_t n40_3600000000000() { return std::ratio<3600000000000LL, 1LL>::num; }
inline intmax_t d40_1() { return std::ratio<3600000000000LL, 1LL>::den; }
}  // namespace probe
}  // namespace cft
#endif
