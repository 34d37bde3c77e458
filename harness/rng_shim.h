// Force-included before every translation unit of the library and of the harnesses: replaces the
// random engine the library draws hash keys from by one that asks the explorer (mc.cpp).
#pragma once
#include <random>
#include <cstdint>
extern "C" uint32_t verif_next_key();
namespace std {
struct verif_random_engine {
    using result_type = uint_fast32_t;
    verif_random_engine() {}
    template<class T> explicit verif_random_engine(T&&) {}
    template<class T> void seed(T&&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    // 22-bit key in the upper bits: uniform_int_distribution(0, 2^22-1) returns exactly the key
    result_type operator()() { return (result_type(verif_next_key()) << 10) & 0xffffffffu; }
    void discard(unsigned long long n) { while(n--) (*this)(); }
};
struct verif_random_device {
    using result_type = unsigned int;
    verif_random_device() {}
    template<class T> explicit verif_random_device(T&&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return 12345; }
    double entropy() const noexcept { return 0; }
};
}
#define mt19937 verif_random_engine
#define mt19937_64 verif_random_engine
#define minstd_rand verif_random_engine
#define default_random_engine verif_random_engine
#define random_device verif_random_device
