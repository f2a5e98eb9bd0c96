// Small property-based testing engine: every random decision of a case is drawn from a choice sequence
// (Src), so that any case can be replayed, mutated (coverage-guided) and shrunk generically.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

    struct Rng {
        uint64_t s;

        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}

        uint64_t next() {
            s += 0x9E3779B97F4A7C15ull;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }

        bool coin_() { return next() & 1; }

        uint32_t below(uint64_t n) {
            return n <= 1 ? 0 : (uint32_t)(next() % n);
        }
    };

    const size_t MaxChoices = 1 << 16;

    // Source of choices. 0 is always the simplest choice.
    class Src {
      public:
        const std::vector<uint32_t>* replay = nullptr;
        Rng* rng = nullptr;
        uint32_t* rec = nullptr;
        uint32_t* nrec = nullptr;
        size_t pos = 0;

        uint32_t u(uint32_t n);  // uniform in [0, n)
        bool chance(uint32_t num, uint32_t den) {  // true with probability num/den, false is the simple choice
            return u(den) >= den - num;
        }
        bool coin() { return u(2) == 1; }
        int range(int lo, int hi) { return lo + (int)u((uint32_t)(hi - lo + 1)); }
        template <class T>
        const T& oneOf(const std::vector<T>& v) { return v[u((uint32_t)v.size())]; }
        // number on the grid of 3 decimals in [lo, hi], biased to round numbers and to the ends
        double num(double lo, double hi);
        // any double, including special values, large, tiny
        double anyDouble();
        double unit();  // in [0,1], biased to 0, 1, 0.5 and neighbourhoods
    };

    struct Failure {
        std::string key, msg;
    };
    struct Discarded {};
    struct KnownStop {};

    class Case {
      public:
        Src src;
        bool describing = false;
        std::ostringstream notes;
        bool isNontrivial = false;
        std::map<std::string, long>* labels = nullptr;
        std::map<std::string, long>* knownCounts = nullptr;
        const std::set<std::string>* knownKeys = nullptr;

        void label(const std::string& l) {
            if (labels)
                (*labels)[l]++;
        }
        void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
        template <class F>
        void note(F f) {
            if (describing)
                notes << f() << "\n";
        }
        void say(const std::string& s) {
            if (describing)
                notes << s << "\n";
        }
        [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
        void check(bool ok, const std::string& key, const std::string& msg) {
            if (!ok)
                fail(key, msg);
        }
        template <class F>
        void checkf(bool ok, const std::string& key, F msg) {
            if (!ok)
                fail(key, msg());
        }
        [[noreturn]] void discard() { throw Discarded{}; }
        // A failure that may be a listed known finding: ends the case.
        [[noreturn]] void known(const std::string& key, const std::string& msg) {
            if (knownKeys && knownKeys->count(key)) {
                if (knownCounts)
                    (*knownCounts)[key]++;
                throw KnownStop{};
            }
            throw Failure{key, msg};
        }
        bool isKnown(const std::string& key) {
            if (knownKeys && knownKeys->count(key)) {
                if (knownCounts)
                    (*knownCounts)[key]++;
                return true;
            }
            return false;
        }
    };

    struct Facet {
        std::string name;
        std::function<void(Case&)> fn;
        long quick, thorough;  // number of cases
        std::string rule;      // what counts as non-trivial
    };

    std::string str(double x);
    bool close(double a, double b, double rel = 1e-9, double abs = 1e-9);
    bool same(double a, double b);  // equal, or both NaN
    std::string strf(const char* fmt, ...);

    int main(int argc, char** argv, const std::string& property, const std::vector<Facet>& facets);

}
