// Stateless exhaustive explorer.
//
// A check is a set of scenarios. A scenario is a function of a Ctx; all its nondeterminism comes from
// Ctx::pick(n), and the driver runs it once for every possible sequence of picks (depth first), so the
// set of executions within the scenario's bounds is enumerated completely. Scenarios drive the real
// library through its public interface and compare every step with a reference model; a mismatch is
// reported with Ctx::fail. Crashes (ASan, signals, uncaught) and hangs of a worker are violations as well.
// The sequence of picks identifies the execution and is the replay artefact.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string msg; };
struct Skip {};

class Ctx {
public:
    // ---- nondeterminism
    // all values 0..n-1
    int pick(int n);
    bool flag() { return pick(2); }
    template <class T> T const& of(std::vector<T> const& v) { return v[pick((int)v.size())]; }
    template <class T> T of(std::initializer_list<T> v) { return *(v.begin() + pick((int)v.size())); }
    // work is divided between workers by the picks made before this call
    void shard();
    // ---- reporting
    [[noreturn]] void fail(std::string const& msg);
    void require(bool c, std::string const& msg) { if (!c) fail(msg); }
    // one operation on the library done
    void step(uint64_t n = 1) { transitions_ += n; }
    // model/observed state reached (hash)
    void state(uint64_t h);
    void state(std::string const& s);
    // description of this execution (kept for a few)
    void note(std::string const& s) { note_ = s; }
    void known(std::string const& what);
    bool thorough() const { return thorough_; }
    // scratch directory of this worker
    std::string const& dir() const { return dir_; }
    std::string path(char const* name) const { return dir_ + "/" + name; }

    // ---- driver side
    struct C { int v, n; };
    std::vector<C> choices_;
    size_t pos_ = 0;
    uint64_t transitions_ = 0;
    bool thorough_ = false;
    bool replay_ = false;
    std::string dir_, note_;
    int worker_ = 0, workers_ = 1;
    bool sharded_ = false;
    long shard_count_ = -1;
    std::vector<int> last_shard_;
    void* shm_ = nullptr;
};

struct Scenario {
    char const* name;
    void (*fn)(Ctx&);
    bool thorough_only = false;
};

int explore_main(int argc, char** argv, std::vector<Scenario> const& scenarios);

// ---- hashing and formatting helpers
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void bytes(void const* p, size_t n)
    {
        auto c = (unsigned char const*)p;
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    }
    template <class T> Hash& operator<<(T const& v) { bytes(&v, sizeof v); return *this; }
    Hash& operator<<(std::string const& s) { uint64_t n = s.size(); bytes(&n, 8); bytes(s.data(), s.size()); return *this; }
    Hash& operator<<(std::vector<double> const& s) { uint64_t n = s.size(); bytes(&n, 8); bytes(s.data(), n * 8); return *this; }
};

std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(std::string const& s, size_t max = 64);
std::string slurp(std::string const& path);
void spew(std::string const& path, std::string const& data);
// exact comparison of doubles (bit pattern, except that +0 == -0)
inline bool same(double a, double b)
{
    return a == b || (a != a && b != b);
}
// first difference of two byte strings as text
std::string diff(std::string const& want, std::string const& got);

} // namespace mc
