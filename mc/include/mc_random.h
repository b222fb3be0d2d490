// Random number sources under the control of the model checker: in the
// controlled mode every value an engine can give (by equivalence class of
// the distributions that use it) is a choice, the same for the same seed
// and position; otherwise the engine is the standard one, and the random
// device gives a fixed sequence.
#pragma once

#include "mc_race.h"

#include <cstdint>
#include <map>
#include <random>

#include "mc.h"

namespace mc {

struct Rng {
    static inline bool controlled = false;
    static inline std::size_t fan = 12;  // values told apart
    static inline std::uint64_t device = 0;
    static inline std::size_t draws = 0;
    static inline std::map<std::pair<std::uint64_t, std::uint64_t>, std::uint64_t> memo;
    static void reset(bool c, std::size_t f = 12)
    {
        controlled = c;
        fan = f;
        device = 1000;
        draws = 0;
        memo.clear();
    }
    static std::uint64_t draw(std::uint64_t seed, std::uint64_t index)
    {
        ++draws;
        auto it = memo.find({seed, index});
        if (it == memo.end()) {
            std::size_t j = choose(fan, 0);
            std::uint64_t v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(2 * j + 1) << 63) / fan);
            it = memo.emplace(std::pair{seed, index}, v).first;
        }
        return it->second;
    }
};

}  // namespace mc

namespace std {

class mc_mt19937_64_t {
public:
    using result_type = uint_fast64_t;
    static constexpr result_type default_seed = 5489u;
    mc_mt19937_64_t() : mc_mt19937_64_t{default_seed} {}
    explicit mc_mt19937_64_t(result_type s) { seed(s); }
    void seed(result_type s = default_seed)
    {
        seed_ = s;
        index_ = 0;
        real_.seed(s);
    }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~static_cast<result_type>(0); }
    result_type operator()()
    {
        return mc::Rng::controlled ? mc::Rng::draw(seed_, index_++) : real_();
    }
    void discard(unsigned long long n)
    {
        for (; n; --n) (*this)();
    }

private:
    result_type seed_ = 0, index_ = 0;
    std::mt19937_64 real_;
};

class mc_random_device_t {
public:
    using result_type = unsigned int;
    result_type operator()()
    {
        mc::race::Ignore ignore;
        return static_cast<result_type>(++mc::Rng::device);
    }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0u; }
};

}  // namespace std
