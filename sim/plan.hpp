// A plan is one fully determined simulated execution: configuration, operations, faults and thread switches.
#pragma once
#include "rt.hpp"
#include <cstdint>
#include <map>
#include <string>
#include <vector>

struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed)
    {
        for (auto& x : s) {
            seed += 0x9E3779B97F4A7C15ull;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            x = z ^ (z >> 31);
        }
    }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next()
    {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }   // inclusive
    bool chance(int permille) { return int(below(1000)) < permille; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    template <class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Op {
    int thr = 0;
    std::string name;
    std::vector<long> a;
    rt::Fault f;           // n: allocation index (per mille of the operation's allocations until resolved)
    long arg(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    std::vector<rt::Switch> sw;
    bool resolved = false;      // fault positions and switch steps are absolute
    long c(const std::string& k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    Op& add(const std::string& name, std::vector<long> a = {}, int thr = 0)
    {
        Op o; o.name = name; o.a = std::move(a); o.thr = thr;
        ops.push_back(o);
        return ops.back();
    }
};

std::string toText(const Plan&);
bool fromText(const std::string&, Plan&);
rt::Fault randomFault(Rng&);                // unresolved (per mille) allocation fault

// A property's workload.
struct Property {
    const char* id;
    void (*gen)(Plan&, Rng&, bool thorough);
    void (*run)(const Plan&);
    bool needsProbe;                        // fault positions / switches have to be resolved by a fault-free run
};
const std::vector<Property>& properties();
const Property* findProperty(const std::string&);

// Run fn in a forked process and return the numbers it produced; a violation in there is re-raised here.
std::vector<uint64_t> subRun(const std::function<std::vector<uint64_t>()>& fn, const char* what);
extern bool probing;                        // the current execution is a probe run (faults off)
