// Included before the code under test: the key schedule's seed sequence becomes
// a sequence of unknown words, the rest is the code as it is.
#include <assert.h>
#include <algorithm>
#include <array>
#include <bitset>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <numeric>
#include <random>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" uint32_t symx_key(uint32_t seed, uint32_t round) noexcept __attribute__((const));
namespace std {
struct symx_seed_seq {
  uint32_t s;
  template <class T> symx_seed_seq(std::initializer_list<T> l) : s(static_cast<uint32_t>(*l.begin())) {}
  template <class It> symx_seed_seq(It b, It) : s(static_cast<uint32_t>(*b)) {}
  template <class It> void generate(It b, It e) {
    for (uint32_t i = 0; b != e; ++b, ++i) *b = symx_key(s, i);
  }
};
}
#define seed_seq symx_seed_seq
