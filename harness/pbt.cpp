#include "pbt.h"

#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=0:"
           "max_allocation_size_mb=2000:hard_rss_limit_mb=2500:print_summary=1:color=never:symbolize=1:fast_unwind_on_malloc=1:"
           "malloc_context_size=4:quarantine_size_mb=32";
}
extern "C" const char* __ubsan_default_options() {
    return "halt_on_error=1:exitcode=99:print_stacktrace=0:color=never";
}
extern "C" const char* __tsan_default_options() {
    return "exitcode=99:halt_on_error=1:color=never:report_signal_unsafe=0:history_size=4";
}

// ---- coverage feedback (only the library under test is instrumented)
static char* covBegin[4096];
static char* covEnd[4096];
static int covModules = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(char* start, char* stop) {
    for (int i = 0; i < covModules; ++i)
        if (covBegin[i] == start)
            return;
    if (covModules < 4096) {
        covBegin[covModules] = start;
        covEnd[covModules++] = stop;
    }
}

namespace pbt {
    static std::vector<uint8_t> covSeen;
    static long covEdges = 0;

    static void covReset() {
        for (int i = 0; i < covModules; ++i)
            memset(covBegin[i], 0, covEnd[i] - covBegin[i]);
    }
    static int bucket(uint8_t c) {
        if (c == 0) return 0;
        if (c == 1) return 1;
        if (c == 2) return 2;
        if (c == 3) return 4;
        if (c < 8) return 8;
        if (c < 16) return 16;
        if (c < 32) return 32;
        if (c < 128) return 64;
        return 128;
    }
    static bool covUpdate() {
        size_t total = 0;
        for (int i = 0; i < covModules; ++i)
            total += covEnd[i] - covBegin[i];
        if (covSeen.size() != total)
            covSeen.assign(total, 0);
        bool isNew = false;
        size_t at = 0;
        for (int i = 0; i < covModules; ++i) {
            size_t n = covEnd[i] - covBegin[i];
            const char* p = covBegin[i];
            for (size_t k = 0; k < n; ++k, ++at) {
                if (!p[k])
                    continue;
                uint8_t b = (uint8_t)bucket((uint8_t)p[k]);
                if (!(covSeen[at] & b)) {
                    if (!covSeen[at])
                        ++covEdges;
                    covSeen[at] |= b;
                    isNew = true;
                }
            }
        }
        return isNew;
    }

    // ---- Src
    uint32_t Src::u(uint32_t n) {
        if (n <= 1)
            return 0;
        uint32_t v;
        if (replay && pos < replay->size()) {
            v = (*replay)[pos];
            if (v >= n)
                v %= n;
        } else
            v = rng ? rng->below(n) : 0;
        if (pos < MaxChoices && rec) {
            rec[pos] = v;
            *nrec = (uint32_t)pos + 1;
        }
        if (pos >= MaxChoices)
            v = 0;
        ++pos;
        return v;
    }

    double Src::num(double lo, double hi) {
        static const int scales[] = {1, 2, 10, 1000, 1000, 4};
        int kind = (int)u(8);
        if (kind == 6)
            return std::round(lo * 1000) / 1000;
        if (kind == 7)
            return std::round(hi * 1000) / 1000;
        int s = scales[kind];
        long a = (long)std::ceil(lo * s - 1e-9), b = (long)std::floor(hi * s + 1e-9);
        if (b < a) {
            s = 1000;
            a = (long)std::ceil(lo * s - 1e-9);
            b = (long)std::floor(hi * s + 1e-9);
            if (b < a)
                return std::round(lo * 1000) / 1000;
        }
        uint32_t n = (uint32_t)(b - a + 1);
        uint32_t d = u(n);
        // simplest is the value closest to zero within the range
        long z = a > 0 ? a : (b < 0 ? b : 0);
        long v = z + (long)d;
        if (v > b)
            v = a + (v - b - 1);
        return (double)v / s;
    }

    double Src::anyDouble() {
        switch (u(10)) {
            case 0: return 0.0;
            case 1: return 1.0;
            case 2: return num(-10, 10);
            case 3: return num(-1000, 1000);
            case 4: return (range(-1000000, 1000000)) * std::pow(10.0, range(-12, 12));
            case 5: return std::numeric_limits<double>::quiet_NaN();
            case 6: return std::numeric_limits<double>::infinity();
            case 7: return -std::numeric_limits<double>::infinity();
            case 8: return (coin() ? 1 : -1) * std::ldexp(1.0 + u(1 << 20) / double(1 << 20), range(-60, 60));
            default: return num(-1, 1) + range(-3, 3) * 1e-7;
        }
    }

    double Src::unit() {
        switch (u(8)) {
            case 0: return 0.0;
            case 1: return 1.0;
            case 2: return 0.5;
            case 3: return u(11) / 10.0;
            case 4: return u(1001) / 1000.0;
            case 5: return u(1 << 24) / double((1 << 24) - 1);
            case 6: return std::pow(10.0, -(double)range(1, 9));
            default: return 1.0 - std::pow(10.0, -(double)range(1, 9));
        }
    }

    // ---- helpers
    std::string str(double x) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", x);
        return b;
    }
    bool same(double a, double b) {
        return a == b || (std::isnan(a) && std::isnan(b));
    }
    bool close(double a, double b, double rel, double abs) {
        if (same(a, b))
            return true;
        if (!std::isfinite(a) || !std::isfinite(b))
            return false;
        double d = std::fabs(a - b);
        return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
    }
    std::string strf(const char* fmt, ...) {
        char b[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        return b;
    }

    static std::string jsonEsc(const std::string& s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += (char)c;
            } else if (c == '\n')
                r += "\\n";
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            } else
                r += (char)c;
        }
        return r + "\"";
    }

    // ---- shared state of one worker / attempt
    struct Shared {
        uint32_t facet, nrec;
        uint32_t rec[MaxChoices];
        char key[256];
        char msg[16384];
    };

    enum { RC_FAIL = 97, RC_HANG = 98, RC_SAN = 99 };

    static Shared* gShared = nullptr;

    static void onHang(int) {
        _exit(RC_HANG);
    }

    static long gCaseCpu = 60;

    static void armWatchdog() {
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = gCaseCpu;
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    struct Options {
        std::string property, outDir = ".", logDir, replay, seedText = "1";
        std::set<std::string> known;
        bool thorough = false, pinned = false;
        double budget = 60, scale = 1;
        int workers = 8;
        uint64_t seed = 1;
        std::string only;
        long cases = -1;
    };

    static double now() {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    // Runs one case in this process. Returns 0 pass, 1 discarded, 2 known; on failure exits with RC_FAIL.
    static int runCase(const Facet& f, Case& c, Shared* sh) {
        c.src.pos = 0;
        sh->nrec = 0;
        c.src.rec = sh->rec;
        c.src.nrec = &sh->nrec;
        try {
            f.fn(c);
        } catch (Failure& x) {
            snprintf(sh->key, sizeof sh->key, "%s", x.key.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", x.msg.c_str());
            return 3;
        } catch (Discarded&) {
            return 1;
        } catch (KnownStop&) {
            return 2;
        } catch (std::exception& x) {
            snprintf(sh->key, sizeof sh->key, "unexpected-exception");
            snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", x.what());
            return 3;
        }
        return 0;
    }

    static void redirectStderr(const std::string& path) {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            ::close(fd);
        }
    }

    static uint64_t hashRec(const uint32_t* r, size_t n, uint64_t h) {
        for (size_t i = 0; i < n; ++i) {
            h ^= r[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdull;
        }
        return h;
    }

    static void mutate(std::vector<uint32_t>& v, const std::vector<std::vector<uint32_t>>& corpus, Rng& r) {
        int k = 1 + r.below(4);
        for (int i = 0; i < k; ++i) {
            size_t n = v.size();
            switch (r.below(7)) {
                case 0:
                case 1:
                    if (n)
                        v[r.below(n)] = (uint32_t)r.next();
                    break;
                case 2:
                    if (n) {
                        size_t j = r.below(n);
                        v[j] = r.coin_() ? v[j] + 1 : (v[j] ? v[j] - 1 : 0);
                    }
                    break;
                case 3: {  // delete chunk
                    if (n > 1) {
                        size_t a = r.below(n), l = 1 + r.below(8);
                        v.erase(v.begin() + a, v.begin() + std::min(n, a + l));
                    }
                    break;
                }
                case 4: {  // insert random chunk
                    size_t a = r.below(n + 1), l = 1 + r.below(6);
                    std::vector<uint32_t> x(l);
                    for (auto& e : x)
                        e = r.below(16);
                    v.insert(v.begin() + a, x.begin(), x.end());
                    break;
                }
                case 5: {  // duplicate chunk
                    if (n > 1) {
                        size_t a = r.below(n), l = std::min(n - a, (size_t)(1 + r.below(20)));
                        std::vector<uint32_t> x(v.begin() + a, v.begin() + a + l);
                        size_t b = r.below(n + 1);
                        v.insert(v.begin() + b, x.begin(), x.end());
                    }
                    break;
                }
                default: {  // splice
                    if (corpus.size() > 1) {
                        const auto& o = corpus[r.below(corpus.size())];
                        if (!o.empty()) {
                            size_t a = r.below(n + 1), b = r.below(o.size());
                            v.resize(a);
                            v.insert(v.end(), o.begin() + b, o.end());
                        }
                    }
                }
            }
            if (v.size() > MaxChoices)
                v.resize(MaxChoices);
        }
    }

    struct FacetStats {
        long evals = 0, nontrivial = 0, discarded = 0, knownStops = 0, planned = 0;
        std::map<std::string, long> labels;
        std::vector<std::string> samples;
    };

    static void worker(int w, const Options& o, const std::vector<Facet>& facets, Shared* sh, double deadline) {
        gShared = sh;
        redirectStderr(o.logDir + "/worker" + std::to_string(w) + ".err");
        signal(SIGPROF, onHang);
        std::map<std::string, long> known;
        std::ofstream hashes(o.logDir + "/worker" + std::to_string(w) + ".hash", std::ios::binary);
        std::vector<FacetStats> stats(facets.size());
        double weightLeft = (double)facets.size();
        for (size_t fi = 0; fi < facets.size(); ++fi) {
            const Facet& f = facets[fi];
            FacetStats& st = stats[fi];
            if (!o.only.empty() && o.only != f.name)
                continue;
            long cases = o.thorough ? f.thorough : f.quick;
            if (o.cases >= 0)
                cases = o.cases;
            cases = (long)std::ceil(cases * o.scale / o.workers);
            st.planned = cases;
            Rng rng(o.seed * 1000003ull + w * 7919ull + hashRec((const uint32_t*)nullptr, 0, fi + 1) + fi * 104729ull);
            std::vector<std::vector<uint32_t>> corpus;
            std::unordered_set<uint64_t> distinct;
            double facetDeadline = now() + (deadline - now()) / weightLeft;
            weightLeft -= 1;
            sh->facet = (uint32_t)fi;
            covSeen.clear();
            for (long i = 0; i < cases; ++i) {
                if (now() > facetDeadline)
                    break;
                Case c;
                c.labels = &st.labels;
                c.knownCounts = &known;
                c.knownKeys = &o.known;
                Rng caseRng(rng.next());
                c.src.rng = &caseRng;
                std::vector<uint32_t> base;
                if (!corpus.empty() && rng.below(100) < 40) {
                    base = corpus[rng.below(corpus.size())];
                    mutate(base, corpus, rng);
                    c.src.replay = &base;
                }
                armWatchdog();
                covReset();
                int rc = runCase(f, c, sh);
                if (rc == 3)
                    _exit(RC_FAIL);
                ++st.evals;
                if (rc == 1)
                    ++st.discarded;
                if (rc == 2)
                    ++st.knownStops;
                if (covUpdate() && rc != 2) {
                    corpus.emplace_back(sh->rec, sh->rec + sh->nrec);
                    if (corpus.size() > 400)
                        corpus.erase(corpus.begin() + rng.below(200));
                }
                if (rc == 0 && c.isNontrivial) {
                    ++st.nontrivial;
                    uint64_t h = hashRec(sh->rec, sh->nrec, fi + 17);
                    if (distinct.size() < 2000000 && distinct.insert(h).second)
                        hashes.write((const char*)&h, 8);
                    if (st.samples.size() < 3 && (st.nontrivial == 1 || rng.below(50) == 0)) {
                        std::vector<uint32_t> rec(sh->rec, sh->rec + sh->nrec);
                        Case d;
                        d.describing = true;
                        d.knownKeys = &o.known;
                        d.src.replay = &rec;
                        runCase(f, d, sh);
                        st.samples.push_back(d.notes.str().substr(0, 1200));
                    }
                }
            }
        }
        struct itimerval it;
        memset(&it, 0, sizeof it);
        setitimer(ITIMER_PROF, &it, nullptr);
        std::ofstream js(o.logDir + "/worker" + std::to_string(w) + ".json");
        js << "{\"known\":{";
        bool first = true;
        for (auto& k : known) {
            js << (first ? "" : ",") << jsonEsc(k.first) << ":" << k.second;
            first = false;
        }
        js << "},\"edges\":" << covEdges << ",\"facets\":[";
        for (size_t fi = 0; fi < facets.size(); ++fi) {
            FacetStats& st = stats[fi];
            js << (fi ? "," : "") << "{\"name\":" << jsonEsc(facets[fi].name) << ",\"rule\":" << jsonEsc(facets[fi].rule)
               << ",\"planned\":" << st.planned << ",\"evaluations\":" << st.evals << ",\"nontrivial\":" << st.nontrivial
               << ",\"discarded\":" << st.discarded << ",\"known\":" << st.knownStops << ",\"labels\":{";
            first = true;
            for (auto& k : st.labels) {
                js << (first ? "" : ",") << jsonEsc(k.first) << ":" << k.second;
                first = false;
            }
            js << "},\"samples\":[";
            for (size_t i = 0; i < st.samples.size(); ++i)
                js << (i ? "," : "") << jsonEsc(st.samples[i]);
            js << "]}";
        }
        js << "]}\n";
        js.close();
        hashes.close();
        _exit(0);
    }

    struct Outcome {
        int kind = 0;  // 0 pass, else failure
        std::string key, msg;
        std::vector<uint32_t> rec;
    };

    static std::string readFile(const std::string& p, size_t max = 1 << 20) {
        std::ifstream f(p, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        return s.substr(0, max);
    }

    static Shared* newShared() {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return (Shared*)p;
    }

    static Outcome decode(int status, Shared* sh, const std::string& errPath) {
        Outcome r;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            return r;
        r.kind = 1;
        r.rec.assign(sh->rec, sh->rec + std::min((size_t)sh->nrec, MaxChoices));
        if (WIFEXITED(status) && WEXITSTATUS(status) == RC_FAIL) {
            r.key = sh->key;
            r.msg = sh->msg;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == RC_HANG) {
            r.key = "hang";
            r.msg = "the case did not finish within " + std::to_string(gCaseCpu) + " s of CPU time";
        } else {
            std::string err = readFile(errPath);
            r.key = "crash";
            size_t at = err.find("ERROR: AddressSanitizer: ");
            if (at != std::string::npos) {
                size_t e = err.find_first_of(" \n", at + 25);
                r.key = "asan:" + err.substr(at + 25, e - at - 25);
            } else if (err.find("WARNING: ThreadSanitizer: data race") != std::string::npos)
                r.key = "tsan:data-race";
            else if ((at = err.find("runtime error: ")) != std::string::npos)
                r.key = "ubsan";
            r.msg = (WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status))
                                         : "exit code " + std::to_string(WEXITSTATUS(status)))
                    + "\n" + err.substr(0, 6000);
        }
        return r;
    }

    static Outcome attempt(const Options& o, const Facet& f, const std::vector<uint32_t>& choices, std::string* notes = nullptr) {
        static Shared* sh = newShared();
        memset(sh, 0, offsetof(Shared, rec));
        sh->key[0] = sh->msg[0] = 0;
        std::string err = o.logDir + "/attempt.err", notesPath = o.logDir + "/attempt.notes";
        pid_t p = fork();
        if (p == 0) {
            redirectStderr(err);
            signal(SIGPROF, onHang);
            armWatchdog();
            Case c;
            c.describing = notes != nullptr;
            c.knownKeys = &o.known;
            c.src.replay = &choices;
            int rc = runCase(f, c, sh);
            if (notes) {
                std::ofstream n(notesPath);
                n << c.notes.str();
            }
            _exit(rc == 3 ? RC_FAIL : 0);
        }
        int status = 0;
        waitpid(p, &status, 0);
        Outcome r = decode(status, sh, err);
        if (notes)
            *notes = readFile(notesPath);
        return r;
    }

    static std::vector<uint32_t>
    shrink(const Options& o, const Facet& f, std::vector<uint32_t> cur, const std::string& key, int& tries) {
        double deadline = now() + 60;
        auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
            if (a.size() != b.size())
                return a.size() < b.size();
            return a < b;
        };
        auto test = [&](std::vector<uint32_t> cand) {
            if (tries > 4000 || now() > deadline)
                return false;
            ++tries;
            Outcome r = attempt(o, f, cand);
            if (r.kind && r.key == key) {
                std::vector<uint32_t> got = r.rec;
                while (!got.empty() && got.back() == 0)
                    got.pop_back();
                if (better(got, cur)) {
                    cur = got;
                    return true;
                }
                if (better(cand, cur)) {
                    cur = cand;
                    return true;
                }
            }
            return false;
        };
        bool progress = true;
        while (progress && tries < 4000 && now() < deadline) {
            progress = false;
            for (size_t block = std::max<size_t>(1, cur.size() / 2); block >= 1; block /= 2) {
                for (size_t i = 0; i < cur.size();) {
                    std::vector<uint32_t> c(cur);
                    c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + block));
                    if (test(c))
                        progress = true;
                    else
                        i += block;
                    if (now() > deadline)
                        break;
                }
                if (block == 1)
                    break;
            }
            for (size_t block : {16, 4, 1})
                for (size_t i = 0; i < cur.size(); i += block) {
                    bool any = false;
                    std::vector<uint32_t> c(cur);
                    for (size_t j = i; j < std::min(c.size(), i + block); ++j) {
                        any = any || c[j];
                        c[j] = 0;
                    }
                    if (any && test(c))
                        progress = true;
                }
            for (size_t i = 0; i < cur.size(); ++i) {
                uint32_t lo = 0;
                for (int k = 0; k < 20 && i < cur.size() && cur[i] > lo; ++k) {
                    uint32_t mid = lo + (cur[i] - lo) / 2;
                    std::vector<uint32_t> c(cur);
                    c[i] = mid;
                    if (test(c))
                        progress = true;
                    else
                        lo = mid + 1;
                }
            }
        }
        return cur;
    }

    static void writeReplay(
        const std::string& path, const Options& o, const Facet& f, const std::vector<uint32_t>& rec, const Outcome& oc,
        const std::string& notes, int tries
    ) {
        std::ofstream r(path);
        r << "property " << o.property << "\nfacet " << f.name << "\nkey " << oc.key << "\nchoices";
        for (uint32_t v : rec)
            r << " " << v;
        r << "\n--- what failed (after " << tries << " shrinking attempts)\n" << oc.msg << "\n--- the case\n" << notes << "\n";
    }

    static int
    report(const Options& o, const std::vector<Facet>& facets, size_t fi, Outcome oc, std::ostream& js, int w) {
        const Facet& f = facets[fi];
        // must fail again from its choices alone
        std::vector<uint32_t> rec = oc.rec;
        Outcome again = attempt(o, f, rec);
        int reruns = 1;
        while (!again.kind && reruns < 6) {
            again = attempt(o, f, rec);
            ++reruns;
        }
        if (!again.kind) {
            js << "{\"facet\":" << jsonEsc(f.name) << ",\"key\":" << jsonEsc(oc.key)
               << ",\"reproduced\":false,\"msg\":" << jsonEsc(oc.msg.substr(0, 3000)) << "}";
            std::cerr << "note: a failure of worker " << w << " did not reproduce: " << oc.key << " " << oc.msg.substr(0, 1500)
                      << "\n";
            return 0;
        }
        int tries = 0;
        std::vector<uint32_t> small = shrink(o, f, rec, again.key, tries);
        Outcome last;
        std::string notes;
        int failed = 0;
        for (int i = 0; i < 3; ++i) {
            Outcome x = attempt(o, f, small, &notes);
            if (x.kind) {
                ++failed;
                last = x;
            }
        }
        if (failed < 3 && reruns == 1) {
            // the shrunk case is not stable: use the original
            small = rec;
            failed = 0;
            for (int i = 0; i < 3; ++i) {
                Outcome x = attempt(o, f, small, &notes);
                if (x.kind) {
                    ++failed;
                    last = x;
                }
            }
        }
        if (!failed)
            last = again;
        std::string path = o.outDir + "/replay-" + o.property + "-" + f.name + "-w" + std::to_string(w) + ".txt";
        writeReplay(path, o, f, small, last, notes, tries);
        js << "{\"facet\":" << jsonEsc(f.name) << ",\"key\":" << jsonEsc(last.key) << ",\"reproduced\":true,\"replays_failed\":"
           << failed << ",\"replay\":" << jsonEsc(path) << ",\"shrink_attempts\":" << tries
           << ",\"msg\":" << jsonEsc(last.msg.substr(0, 3000)) << ",\"case\":" << jsonEsc(notes.substr(0, 3000)) << "}";
        return 1;
    }

    int main(int argc, char** argv, const std::string& property, const std::vector<Facet>& facets) {
        Options o;
        o.property = property;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--out") o.outDir = val();
            else if (a == "--thorough") o.thorough = true;
            else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--budget") o.budget = atof(val().c_str());
            else if (a == "--scale") o.scale = atof(val().c_str());
            else if (a == "--workers") o.workers = atoi(val().c_str());
            else if (a == "--replay") o.replay = val();
            else if (a == "--known") o.known.insert(val());
            else if (a == "--only") o.only = val();
            else if (a == "--cases") o.cases = atol(val().c_str());
            else if (a == "--case-cpu") gCaseCpu = atol(val().c_str());
            else {
                std::cerr << "unknown option " << a << "\n";
                return 2;
            }
        }
        mkdir(o.outDir.c_str(), 0755);
        o.logDir = o.outDir + "/logs";
        mkdir(o.logDir.c_str(), 0755);

        if (!o.replay.empty()) {
            std::ifstream in(o.replay);
            std::string line, facet;
            std::vector<uint32_t> rec;
            while (std::getline(in, line)) {
                std::istringstream ss(line);
                std::string k;
                ss >> k;
                if (k == "facet")
                    ss >> facet;
                else if (k == "choices") {
                    uint32_t v;
                    while (ss >> v)
                        rec.push_back(v);
                } else if (k == "---")
                    break;
            }
            for (auto& f : facets)
                if (f.name == facet) {
                    std::string notes;
                    Outcome r = attempt(o, f, rec, &notes);
                    std::cout << notes << "\n";
                    if (r.kind) {
                        std::cout << "FAILS key=" << r.key << "\n" << r.msg << "\n";
                        return 1;
                    }
                    std::cout << "PASSES\n";
                    return 0;
                }
            std::cerr << "no facet " << facet << "\n";
            return 2;
        }

        double t0 = now(), deadline = t0 + o.budget;
        std::vector<Shared*> sh(o.workers);
        std::vector<pid_t> pids(o.workers);
        for (int w = 0; w < o.workers; ++w) {
            sh[w] = newShared();
            for (const char* ext : {".json", ".hash", ".err"})
                unlink((o.logDir + "/worker" + std::to_string(w) + ext).c_str());
        }
        std::cout.flush();
        for (int w = 0; w < o.workers; ++w) {
            pids[w] = fork();
            if (pids[w] == 0)
                worker(w, o, facets, sh[w], deadline);
        }
        struct Found {
            int w;
            size_t facet;
            Outcome oc;
        };
        std::vector<Found> found;
        int left = o.workers;
        bool killed = false;
        while (left > 0) {
            int status = 0;
            pid_t p = waitpid(-1, &status, 0);
            if (p < 0)
                break;
            int w = -1;
            for (int i = 0; i < o.workers; ++i)
                if (pids[i] == p)
                    w = i;
            if (w < 0)
                continue;
            --left;
            if (killed && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
                continue;
            Outcome oc = decode(status, sh[w], o.logDir + "/worker" + std::to_string(w) + ".err");
            if (oc.kind) {
                found.push_back({w, sh[w]->facet, oc});
                if (!killed) {
                    killed = true;
                    for (int i = 0; i < o.workers; ++i)
                        if (i != w)
                            kill(pids[i], SIGKILL);
                }
            }
        }
        double searchWall = now() - t0;
        int violations = 0;
        std::ostringstream js;
        js << "{\"property\":" << jsonEsc(property) << ",\"search_wall\":" << searchWall << ",\"failures\":[";
        for (size_t i = 0; i < found.size(); ++i) {
            js << (i ? "," : "");
            if (violations >= 1)
                js << "{\"facet\":" << jsonEsc(facets[found[i].facet].name) << ",\"key\":" << jsonEsc(found[i].oc.key)
                   << ",\"reproduced\":false,\"skipped\":true}";
            else
                violations += report(o, facets, found[i].facet, found[i].oc, js, found[i].w);
        }
        std::unordered_set<uint64_t> distinct;
        js << "],\"workers\":[";
        bool first = true;
        for (int w = 0; w < o.workers; ++w) {
            std::string base = o.logDir + "/worker" + std::to_string(w);
            std::string j = readFile(base + ".json", 8 << 20);
            if (!j.empty()) {
                js << (first ? "" : ",") << j;
                first = false;
            }
            std::ifstream h(base + ".hash", std::ios::binary);
            uint64_t v;
            while (h.read((char*)&v, 8))
                distinct.insert(v);
        }
        js << "],\"distinct_nontrivial\":" << distinct.size() << ",\"violations\":" << violations << "}\n";
        std::ofstream(o.outDir + "/result.json") << js.str();
        return violations ? 1 : 0;
    }
}
