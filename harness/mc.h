// Small stateless model checker for sequential C++ code.
//
// A harness supplies scenarios; a scenario is a family of executions of the real library, split into
// `units`. Inside a unit every call of mc::choose(n) is a nondeterministic choice (an operation, an
// argument, an environment answer such as a hash key or the previous contents of memory); the
// explorer runs the body once for every sequence of choices (depth-first, to exhaustion).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {

constexpr int QUICK = 0, THOROUGH = 1;

int choose(int n, const char* what = "");           // explored exhaustively
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void state(uint64_t hash);                          // an observed canonical state (counted distinct)
void steps(uint64_t n = 1);                         // library operations / transitions performed
void beat();                                        // sign of progress: an execution without any for `timeout` seconds counts as a hang
void nontrivial(bool b = true);                     // marks this execution as non-trivial
extern bool tracing;
void note_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_NOTE(...) do { if (mc::tracing) mc::note_(__VA_ARGS__); } while (0)
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
    return h;
}

// --- environment owned by the explorer ---
// Hash keys: the library asks its random engine for a 22-bit key per node; the engine is replaced
// (rng_shim.h) by one that asks here.
enum class Keys { Pseudo, Constant, Sequence, Choice, Callback };
void keys_pseudo(uint64_t salt = 0);
void keys_constant(uint32_t k);
void keys_sequence(uint32_t first, uint32_t stride);
void keys_choice(const std::vector<uint32_t>& alphabet);
void keys_callback(std::function<uint32_t()> f);
uint64_t keys_drawn();
// Memory: all memory the library allocates during an execution comes from an arena at a fixed address
// (so that pointer values are deterministic) and initially contains this byte.
void memory_fill(unsigned char byte);
void memory_offset(size_t bytes);                   // shifts all following allocations
void memory_reuse(bool b);                          // released blocks are handed out again at once, with what they held
long memory_blocks(); long memory_bytes();           // taken and not released during this execution
bool memory_controlled();                           // false in the address-sanitizer variant

struct Scenario {
    std::string name;
    std::string bound;                              // what is enumerated, for the evidence
    long units;
    std::function<void(long)> body;
    double timeout = 30;                            // seconds without a sign of progress before an execution counts as a hang
};

} // namespace mc

std::vector<mc::Scenario> mc_scenarios(int tier);   // supplied by the harness
