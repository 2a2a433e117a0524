// Stands in for boost's Mersenne twister: every word of the engine is an answer of the explorer.
#ifndef VERIF_FAKE_MERSENNE
#define VERIF_FAKE_MERSENNE
#define BOOST_RANDOM_MERSENNE_TWISTER_HPP
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace mce { extern std::vector<uint32_t> words; extern size_t pos; struct Exhausted {}; }
namespace boost { namespace random {
struct mc_engine {
  typedef uint32_t result_type; static const bool has_fixed_range = false;
  mc_engine() {} explicit mc_engine(uint32_t) {} void seed() {} void seed(uint32_t) {}
  static result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0xffffffffu; }
  result_type operator()() { if (mce::pos >= mce::words.size()) throw mce::Exhausted(); return mce::words[mce::pos++]; }
};
typedef mc_engine mt19937; typedef mc_engine mt11213b;
} using random::mt19937; using random::mt11213b; }
#endif
