// Property-based testing engine: recorded choice sequences, forked workers,
// integrated shrinking, replay.  One translation unit per property includes it.
//
// A law is a function drawing everything it needs from a Ctx and throwing
// pbt::Failure when the property does not hold.  Every draw is recorded, so a
// case is its choice sequence: it can be replayed and shrunk (Hypothesis style).
#pragma once
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {};

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // [0, n); n == 0 means any 64 bit value
    uint64_t below(uint64_t n) {
        uint64_t x = next();
        return n ? (uint64_t)(((unsigned __int128)x * n) >> 64) : x;
    }
};

constexpr size_t MAXCHOICES = 1u << 17;
struct Shared {
    volatile uint64_t caseIndex;
    volatile uint32_t law;
    volatile int state; // 0 running, 1 failed, 2 finished
    volatile uint64_t done;
    volatile uint64_t nchoices;
    volatile int overflow;
    char msg[1 << 13];
    char desc[1 << 15];
    uint64_t choices[MAXCHOICES];
};

enum class Mode { Random, Replay, Bytes };

class Ctx {
  public:
    Mode mode = Mode::Random;
    Rng rng;
    const std::vector<uint64_t> *replay = nullptr;
    const uint8_t *bytes = nullptr;
    size_t nbytes = 0, pos = 0;
    Shared *sh = nullptr;
    bool verbose = false;
    bool isNontrivial = false;
    uint64_t fp = 0xcbf29ce484222325ull;
    std::string text;
    std::vector<const char *> labels;
    uint64_t thorough = 0; // 1 in the thorough tier: larger sizes

    uint64_t below(uint64_t n) {
        if (n == 1)
            return 0;
        uint64_t v = 0;
        if (mode == Mode::Random) {
            v = rng.below(n);
        } else if (mode == Mode::Replay) {
            v = pos < replay->size() ? (*replay)[pos] : 0;
            ++pos;
            if (n && v >= n)
                v = n - 1;
        } else {
            int k = n == 0 || n > (1ull << 32) ? 8 : n > 65536 ? 4 : n > 256 ? 2 : 1;
            for (int i = 0; i < k; ++i)
                v = (v << 8) | (pos < nbytes ? bytes[pos++] : 0);
            if (n)
                v %= n;
        }
        fp = (fp ^ v) * 0x100000001b3ull;
        fp ^= fp >> 29;
        if (sh) {
            uint64_t k = sh->nchoices;
            if (k < MAXCHOICES) {
                sh->choices[k] = v;
                sh->nchoices = k + 1;
            } else
                sh->overflow = 1;
        }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; shrinks to false
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0;
        for (auto x : w)
            tot += x;
        uint64_t v = below(tot);
        size_t i = 0;
        for (auto x : w) {
            if (v < x)
                return i;
            v -= x;
            ++i;
        }
        return w.size() - 1;
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    void label(const char *l) { labels.push_back(l); }
    void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
    template <class... A> void log(const A &...a) {
        if (!verbose || text.size() > 6000)
            return;
        std::ostringstream o;
        (o << ... << a);
        text += o.str();
        text += '\n';
        if (sh) {
            size_t k = std::min(text.size(), sizeof(sh->desc) - 1);
            memcpy(sh->desc, text.data(), k);
            sh->desc[k] = 0;
        }
    }
};

template <class... A> [[noreturn]] void fail(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Failure{o.str()};
}
#define CHECK(cond, ...)                                                                           \
    do {                                                                                           \
        if (!(cond))                                                                               \
            ::pbt::fail(__VA_ARGS__);                                                              \
    } while (0)

using LawFn = void (*)(Ctx &);
struct Law {
    const char *name;
    unsigned weight;
    LawFn fn;
    const char *what;
};
inline std::vector<Law> &laws() {
    static std::vector<Law> l;
    return l;
}
struct Reg {
    Reg(const char *n, unsigned w, LawFn f, const char *what) { laws().push_back({n, w, f, what}); }
};
// LAW(name, weight, "what it checks") { ... uses c ... }
#define LAW(name, weight, what)                                                                    \
    static void law_##name(::pbt::Ctx &c);                                                         \
    static ::pbt::Reg reg_##name(#name, weight, law_##name, what);                                 \
    static void law_##name([[maybe_unused]] ::pbt::Ctx &c)

inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (unsigned char ch : s)
        h = (h ^ ch) * 0x100000001b3ull;
    return mix64(h);
}

// ---------------------------------------------------------------------------

struct Config {
    std::string property, rule;
    uint64_t seed = 1, cases = 0;
    unsigned workers = 8;
    std::string out, replayOut, tmp = "/tmp";
    std::string onlyLaw;
    uint64_t thorough = 0;
    double cpuLimit = 20, wallLimit = 150;
    double budget = 240; // wall seconds after which no new case is started
};
inline Config &cfg() {
    static Config c;
    return c;
}

inline uint64_t caseSeed(uint64_t idx) {
    return mix64(mix64(cfg().seed * 0x9e3779b97f4a7c15ull + 77) ^ hashStr(cfg().property) ^ mix64(idx));
}
inline uint32_t caseLaw(uint64_t idx) {
    auto &L = laws();
    uint64_t tot = 0;
    for (auto &l : L)
        if (cfg().onlyLaw.empty() || cfg().onlyLaw == l.name)
            tot += l.weight;
    uint64_t v = mix64(caseSeed(idx) ^ 0x1234567) % tot;
    for (uint32_t i = 0; i < L.size(); ++i) {
        if (!(cfg().onlyLaw.empty() || cfg().onlyLaw == L[i].name))
            continue;
        if (v < L[i].weight)
            return i;
        v -= L[i].weight;
    }
    return 0;
}

enum class Outcome { Ok, Discarded, Failed };

// Runs one law in this process.
inline Outcome runLaw(Ctx &c, uint32_t law, std::string &msg) {
    try {
        laws()[law].fn(c);
        return Outcome::Ok;
    } catch (const Failure &f) {
        msg = f.msg;
    } catch (const Discard &) {
        return Outcome::Discarded;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        msg = "unexpected exception of unknown type";
    }
    return Outcome::Failed;
}

inline Shared *newShared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return (Shared *)p;
}

inline Shared *&currentShared() {
    static Shared *s = nullptr;
    return s;
}
inline void onTimer(int sig) {
    Shared *s = currentShared();
    if (s) {
        const char *m = sig == SIGPROF ? "did not terminate (CPU limit of the case exceeded)"
                                       : "did not terminate (blocked: wall limit of the case exceeded)";
        strncpy(s->msg, m, sizeof(s->msg) - 1);
        s->state = 1;
    }
    _exit(87);
}
inline void armTimers(double cpu, double wall) {
    auto set = [](int which, double t) {
        struct itimerval v {};
        v.it_value.tv_sec = (long)t;
        v.it_value.tv_usec = (long)((t - (long)t) * 1e6);
        setitimer(which, &v, nullptr);
    };
    set(ITIMER_PROF, cpu);
    set(ITIMER_REAL, wall);
}

inline void childSetup(const std::string &errFile) {
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) {
        dup2(n, 1);
        close(n);
    }
    int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (e >= 0) {
        dup2(e, 2);
        close(e);
    }
    signal(SIGPROF, onTimer);
    signal(SIGALRM, onTimer);
}

inline std::string crashSummary(const std::string &errFile, int status) {
    std::string res;
    std::ifstream f(errFile);
    std::string l, first;
    int frames = 0;
    while (std::getline(f, l)) {
        if (l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos ||
            l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos ||
            l.find("WARNING: ThreadSanitizer") != std::string::npos) {
            if (res.size() < 1500)
                res += l + "\n";
        } else if (l.find("    #") == 0 && frames < 8 && l.find("/repo/") != std::string::npos) {
            res += l + "\n";
            ++frames;
        }
    }
    std::ostringstream o;
    if (WIFSIGNALED(status))
        o << "the process was killed by signal " << WTERMSIG(status) << "\n";
    else
        o << "the process ended with status " << WEXITSTATUS(status) << "\n";
    return o.str() + res;
}

// One entry of a replayed history.
struct Entry {
    uint32_t law = 0;
    bool bySeed = false;
    uint64_t idx = 0;
    std::vector<uint64_t> choices;
    std::vector<uint8_t> bytes; // raw fuzzer input
};
struct RunResult {
    bool failed = false, overflow = false;
    std::string msg, desc;
    std::vector<uint64_t> choices; // those of the last entry
};

struct Job {
    pid_t pid = -1;
    Shared *sh = nullptr;
    std::string err;
};

inline Job startJob(const std::vector<Entry> &h, bool verbose, unsigned slot, double cpu, double wall) {
    static std::vector<Shared *> pool;
    while (pool.size() <= slot)
        pool.push_back(newShared());
    Job j;
    j.sh = pool[slot];
    j.sh->state = 0;
    j.sh->nchoices = 0;
    j.sh->overflow = 0;
    j.sh->msg[0] = 0;
    j.sh->desc[0] = 0;
    j.err = cfg().tmp + "/job" + std::to_string(slot) + ".err";
    fflush(stdout);
    fflush(stderr);
    j.pid = fork();
    if (j.pid == 0) {
        childSetup(j.err);
        currentShared() = j.sh;
        for (size_t i = 0; i < h.size(); ++i) {
            Ctx c;
            c.sh = j.sh;
            c.thorough = cfg().thorough;
            j.sh->nchoices = 0;
            c.verbose = verbose && i + 1 == h.size();
            if (h[i].bySeed) {
                c.mode = Mode::Random;
                c.rng = Rng(caseSeed(h[i].idx));
            } else if (!h[i].bytes.empty()) {
                c.mode = Mode::Bytes;
                c.bytes = h[i].bytes.data() + 1;
                c.nbytes = h[i].bytes.size() - 1;
            } else {
                c.mode = Mode::Replay;
                c.replay = &h[i].choices;
            }
            armTimers(cpu, wall);
            std::string msg;
            auto r = runLaw(c, h[i].law, msg);
            armTimers(0, 0);
            if (r == Outcome::Failed) {
                strncpy(j.sh->msg, msg.c_str(), sizeof(j.sh->msg) - 1);
                j.sh->state = 1;
                _exit(0);
            }
        }
        j.sh->state = 2;
        _exit(0);
    }
    return j;
}
inline RunResult finishJob(Job &j) {
    int st = 0;
    while (waitpid(j.pid, &st, 0) < 0 && errno == EINTR) {
    }
    RunResult r;
    r.overflow = j.sh->overflow;
    r.choices.assign(j.sh->choices, j.sh->choices + j.sh->nchoices);
    r.desc = j.sh->desc;
    if (j.sh->state == 2)
        return r;
    r.failed = true;
    if (j.sh->state == 1)
        r.msg = j.sh->msg;
    else
        r.msg = crashSummary(j.err, st);
    return r;
}
inline RunResult runOnce(const std::vector<Entry> &h, bool verbose = false, double cpu = 0) {
    Job j = startJob(h, verbose, 0, cpu > 0 ? cpu : cfg().cpuLimit, cfg().wallLimit);
    return finishJob(j);
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

using Choices = std::vector<uint64_t>;
inline bool simpler(const Choices &a, const Choices &b) {
    return a.size() != b.size() ? a.size() < b.size() : a < b;
}

// Shrinks the choices of a failing single case.
class Shrinker {
  public:
    Shrinker(uint32_t law, Choices start, double budget, double cpu)
        : law_(law), best_(std::move(start)), end_(now() + budget), cpu_(cpu) {}
    Choices run() {
        bool progress = true;
        while (progress && now() < end_) {
            progress = false;
            for (size_t k = std::max<size_t>(1, best_.size() / 2);; k /= 2) {
                progress |= pass(k, true);
                progress |= pass(k, false);
                if (k <= 1 || now() > end_)
                    break;
            }
            progress |= minimise();
            progress |= decrement();
        }
        return best_;
    }
    size_t tried = 0;

  private:
    uint32_t law_;
    Choices best_;
    double end_, cpu_;

    // index of the first failing candidate, or -1; adopts it
    int tryAll(std::vector<Choices> &cands) {
        unsigned W = std::max(1u, cfg().workers);
        for (size_t b = 0; b < cands.size() && now() < end_; b += W) {
            std::vector<Job> jobs;
            size_t e = std::min(cands.size(), b + W);
            for (size_t i = b; i < e; ++i) {
                Entry en;
                en.law = law_;
                en.choices = cands[i];
                jobs.push_back(startJob({en}, false, (unsigned)(i - b), cpu_, cfg().wallLimit));
                ++tried;
            }
            int hit = -1;
            Choices got;
            for (size_t i = b; i < e; ++i) {
                RunResult r = finishJob(jobs[i - b]);
                if (r.failed && hit < 0 && simpler(r.choices, best_)) {
                    hit = (int)i;
                    got = r.choices;
                }
            }
            if (hit >= 0) {
                best_ = got;
                return hit;
            }
        }
        return -1;
    }
    bool pass(size_t k, bool del) {
        bool any = false;
        size_t i = 0;
        while (i < best_.size() && now() < end_) {
            std::vector<Choices> cands;
            std::vector<size_t> at;
            unsigned W = std::max(1u, cfg().workers);
            size_t j = i;
            for (; j < best_.size() && cands.size() < W; j += k) {
                Choices x = best_;
                size_t e = std::min(x.size(), j + k);
                if (del)
                    x.erase(x.begin() + j, x.begin() + e);
                else {
                    bool z = true;
                    for (size_t q = j; q < e; ++q) {
                        z = z && x[q] == 0;
                        x[q] = 0;
                    }
                    if (z)
                        continue;
                }
                cands.push_back(std::move(x));
                at.push_back(j);
            }
            if (cands.empty())
                break;
            int h = tryAll(cands);
            if (h >= 0) {
                any = true;
                i = at[h] + (del ? 0 : k);
            } else
                i = j;
        }
        return any;
    }
    bool minimise() {
        bool any = false;
        for (size_t i = 0; i < best_.size() && now() < end_; ++i) {
            uint64_t lo = 0; // try lo.. in steps of a binary search
            int guard = 0;
            while (i < best_.size() && lo < best_[i] && now() < end_ && ++guard < 70) {
                std::vector<Choices> cands;
                uint64_t hi = best_[i];
                std::vector<uint64_t> vals;
                for (uint64_t d = hi - lo; d > 0; d /= 2) {
                    vals.push_back(hi - d);
                    if (vals.size() >= 8)
                        break;
                }
                for (auto v : vals) {
                    Choices x = best_;
                    x[i] = v;
                    cands.push_back(x);
                }
                size_t before = best_.size();
                int h = tryAll(cands);
                if (h < 0)
                    break;
                any = true;
                if (best_.size() != before)
                    break;
                lo = h > 0 ? vals[h - 1] + 1 : vals[h];
                if (h == 0)
                    break;
            }
        }
        return any;
    }
    // lower a value and delete what follows it (a size and its elements)
    bool decrement() {
        bool any = false;
        for (size_t i = 0; i < best_.size() && now() < end_; ++i) {
            if (best_[i] == 0)
                continue;
            std::vector<Choices> cands;
            for (size_t k = 1; k <= 7 && i + k < best_.size(); ++k) {
                Choices x = best_;
                x[i] -= 1;
                x.erase(x.begin() + i + 1, x.begin() + i + 1 + k);
                cands.push_back(x);
                Choices y = best_;
                y[i] -= 1;
                y.erase(y.end() - k, y.end());
                cands.push_back(y);
            }
            if (!cands.empty() && tryAll(cands) >= 0) {
                any = true;
                --i;
            }
        }
        return any;
    }
};

inline std::string jsonEsc(const std::string &s) {
    std::ostringstream o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            o << '\\' << ch;
        else if (ch == '\n')
            o << "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o << b;
        } else
            o << ch;
    }
    return o.str();
}

inline void writeReplay(const std::string &path, const std::vector<Entry> &h, const RunResult &r) {
    std::ofstream f(path);
    f << "# property " << cfg().property << "\n# run: python3 check.py " << cfg().property << " --replay " << path
      << "\n";
    std::istringstream m("failure: " + r.msg + "\n" + r.desc);
    std::string l;
    while (std::getline(m, l))
        f << "# " << l << "\n";
    f << "seed " << cfg().seed << "\nthorough " << cfg().thorough << "\n";
    for (auto &e : h) {
        if (e.bySeed)
            f << "case " << laws()[e.law].name << " " << e.idx << "\n";
        else {
            f << "choices " << laws()[e.law].name << " " << e.choices.size();
            for (auto v : e.choices)
                f << " " << v;
            f << "\n";
        }
    }
}
inline uint32_t lawByName(const std::string &n) {
    for (uint32_t i = 0; i < laws().size(); ++i)
        if (n == laws()[i].name)
            return i;
    std::cerr << "unknown law " << n << "\n";
    exit(3);
}
inline std::vector<Entry> readReplay(const std::string &path) {
    std::ifstream f(path);
    if (!f) {
        std::cerr << "cannot read " << path << "\n";
        exit(3);
    }
    std::vector<Entry> h;
    std::string l;
    while (std::getline(f, l)) {
        if (l.empty() || l[0] == '#')
            continue;
        std::istringstream s(l);
        std::string k, name;
        s >> k;
        if (k == "seed")
            s >> cfg().seed;
        else if (k == "thorough")
            s >> cfg().thorough;
        else if (k == "case") {
            Entry e;
            e.bySeed = true;
            s >> name >> e.idx;
            e.law = lawByName(name);
            h.push_back(e);
        } else if (k == "choices") {
            Entry e;
            size_t n = 0;
            s >> name >> n;
            e.law = lawByName(name);
            for (size_t i = 0; i < n; ++i) {
                uint64_t v;
                s >> v;
                e.choices.push_back(v);
            }
            h.push_back(e);
        }
    }
    return h;
}

struct WorkerStats {
    std::map<std::string, uint64_t> labels; // "law|label" -> count
    std::vector<std::string> samples;
    uint64_t evals = 0, discards = 0;
};

inline int runAll() {
    auto &C = cfg();
    double t0 = now();
    unsigned W = C.workers;
    std::vector<Shared *> sh(W);
    volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t per = C.cases / W + 1;
    size_t hashBytes = sizeof(uint64_t) * per * W;
    uint64_t *hashes =
        (uint64_t *)mmap(nullptr, hashBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (hashes == MAP_FAILED || stop == MAP_FAILED) {
        perror("mmap");
        return 3;
    }
    std::vector<pid_t> pids(W);
    for (unsigned w = 0; w < W; ++w) {
        sh[w] = newShared();
        fflush(stdout);
        pids[w] = fork();
        if (pids[w] == 0) {
            childSetup(C.tmp + "/w" + std::to_string(w) + ".err");
            Shared *S = sh[w];
            currentShared() = S;
            WorkerStats st;
            std::vector<unsigned> shown(laws().size(), 0);
            uint64_t k = 0;
            for (uint64_t idx = w; idx < C.cases && !*stop && now() - t0 < C.budget; idx += W, ++k) {
                uint32_t law = caseLaw(idx);
                S->caseIndex = idx;
                S->law = law;
                S->nchoices = 0;
                Ctx c;
                c.sh = S;
                c.thorough = C.thorough;
                c.rng = Rng(caseSeed(idx));
                c.verbose = w == 0 && shown[law] < 2 && idx < 4000;
                armTimers(C.cpuLimit, C.wallLimit);
                std::string msg;
                Outcome r = runLaw(c, law, msg);
                if (r == Outcome::Failed) {
                    armTimers(0, 0);
                    strncpy(S->msg, msg.c_str(), sizeof(S->msg) - 1);
                    S->state = 1;
                    *stop = 1;
                    _exit(0);
                }
                st.evals++;
                if (r == Outcome::Discarded) {
                    st.discards++;
                    continue;
                }
                std::string ln = laws()[law].name;
                st.labels[ln + "|cases"]++;
                if (c.isNontrivial) {
                    hashes[w * per + k] = c.fp ^ mix64(law + 1) | 1;
                    st.labels[ln + "|nontrivial"]++;
                    if (c.verbose) {
                        ++shown[law];
                        st.samples.push_back(ln + ":\n" + c.text);
                    }
                }
                for (auto l : c.labels)
                    st.labels[ln + "|" + l]++;
                S->done = k + 1;
            }
            armTimers(0, 0);
            std::ofstream f(C.tmp + "/w" + std::to_string(w) + ".stats");
            f << "E " << st.evals << "\nD " << st.discards << "\n";
            for (auto &[l, n] : st.labels)
                f << "L " << n << " " << l << "\n";
            for (auto &s : st.samples)
                f << "S " << jsonEsc(s) << "\n";
            f.close();
            S->state = 2;
            _exit(0);
        }
    }
    struct Fail {
        uint64_t idx;
        unsigned w;
        std::string msg;
    };
    std::vector<Fail> fails;
    unsigned left = W;
    while (left) {
        int stt;
        pid_t p = waitpid(-1, &stt, 0);
        if (p < 0) {
            if (errno == EINTR)
                continue;
            break;
        }
        for (unsigned w = 0; w < W; ++w)
            if (pids[w] == p) {
                --left;
                if (sh[w]->state == 2)
                    break;
                *stop = 1;
                Fail f{sh[w]->caseIndex, w, ""};
                f.msg = sh[w]->state == 1 ? std::string(sh[w]->msg)
                                          : crashSummary(C.tmp + "/w" + std::to_string(w) + ".err", stt);
                fails.push_back(f);
            }
    }
    uint64_t evals = 0, discards = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    for (unsigned w = 0; w < W; ++w) {
        std::ifstream f(C.tmp + "/w" + std::to_string(w) + ".stats");
        std::string l;
        if (sh[w]->state != 2)
            evals += sh[w]->done + 1;
        while (std::getline(f, l)) {
            if (l[0] == 'E')
                evals += std::stoull(l.substr(2));
            else if (l[0] == 'D')
                discards += std::stoull(l.substr(2));
            else if (l[0] == 'L') {
                size_t sp = l.find(' ', 2);
                labels[l.substr(sp + 1)] += std::stoull(l.substr(2, sp - 2));
            } else if (l[0] == 'S')
                samples.push_back(l.substr(2));
        }
    }
    std::vector<uint64_t> hs;
    for (size_t i = 0; i < per * W; ++i)
        if (hashes[i])
            hs.push_back(hashes[i]);
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    double tSearch = now() - t0;

    // -------- confirm, shrink
    bool violation = false, unconfirmed = false;
    std::string vmsg, vdesc, vlaw;
    std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) { return a.idx < b.idx; });
    for (auto &f : fails) {
        Entry e;
        e.law = caseLaw(f.idx);
        e.bySeed = true;
        e.idx = f.idx;
        std::vector<Entry> h{e};
        bool hang = f.msg.find("did not terminate") == 0;
        RunResult r = runOnce(h);
        bool flaky = false;
        if (!r.failed) {
            // does it need the cases this worker ran before?
            std::vector<Entry> hist;
            for (uint64_t i = f.w; i <= f.idx; i += W) {
                Entry x;
                x.bySeed = true;
                x.idx = i;
                x.law = caseLaw(i);
                hist.push_back(x);
            }
            r = runOnce(hist);
            if (r.failed) {
                h = hist;
                // drop entries while it still fails (the last one stays)
                double end = now() + 120;
                for (size_t k = h.size() / 2; k >= 1 && now() < end; k /= 2) {
                    size_t i = 0;
                    while (i + k < h.size() && now() < end) {
                        std::vector<Entry> t(h);
                        t.erase(t.begin() + i, t.begin() + i + k);
                        if (runOnce(t).failed)
                            h = t;
                        else
                            i += k;
                    }
                }
            } else {
                for (int t = 0; t < 20 && !r.failed; ++t) {
                    r = runOnce({e});
                    flaky = true;
                }
                if (!r.failed) {
                    unconfirmed = true;
                    std::cout << "note: case " << f.idx << " (" << laws()[e.law].name
                              << ") failed once and never again, not reported: " << f.msg << "\n";
                    continue;
                }
                r.msg = "(intermittent) " + r.msg;
            }
        } else if (!r.overflow) {
            double cpu = hang ? 4 : C.cpuLimit;
            Shrinker s(e.law, r.choices, hang ? 40 : 60, cpu);
            Choices best = s.run();
            Entry b;
            b.law = e.law;
            b.choices = best;
            std::vector<Entry> hb{b};
            int ok = 0;
            for (int t = 0; t < 3; ++t)
                ok += runOnce(hb, true).failed;
            if (ok == 3)
                h = hb;
        }
        int again = 0;
        RunResult last = r;
        for (int t = 0; t < 3; ++t) {
            RunResult q = runOnce(h, true);
            if (q.failed) {
                ++again;
                last = q;
            }
        }
        if (again < 3 && !flaky)
            last.msg += " (failed in " + std::to_string(again) + " of 3 replays)";
        violation = true;
        vmsg = last.msg;
        vdesc = last.desc;
        vlaw = laws()[e.law].name;
        writeReplay(C.replayOut, h, last);
        break;
    }

    std::ofstream o(C.out);
    o << "{\n \"evaluations\": " << evals << ",\n \"discarded\": " << discards
      << ",\n \"distinct_nontrivial\": " << hs.size() << ",\n \"search_s\": " << tSearch << ",\n \"seed\": " << C.seed
      << ",\n \"rule\": \"" << jsonEsc(C.rule) << "\",\n \"laws\": {";
    bool first = true;
    for (auto &l : laws()) {
        o << (first ? "" : ",") << "\n  \"" << l.name << "\": {\"what\": \"" << jsonEsc(l.what) << "\"";
        first = false;
        std::string p = std::string(l.name) + "|";
        for (auto &[k, n] : labels)
            if (k.compare(0, p.size(), p) == 0)
                o << ", \"" << jsonEsc(k.substr(p.size())) << "\": " << n;
        o << "}";
    }
    o << "\n },\n \"samples\": [";
    for (size_t i = 0; i < samples.size() && i < 24; ++i)
        o << (i ? ",\n  " : "\n  ") << '"' << samples[i] << '"';
    o << "\n ],\n \"violation\": " << (violation ? "true" : "false") << ",\n \"unconfirmed\": "
      << (unconfirmed ? "true" : "false") << ",\n \"law\": \"" << vlaw << "\",\n \"message\": \"" << jsonEsc(vmsg)
      << "\",\n \"description\": \"" << jsonEsc(vdesc) << "\"\n}\n";
    o.close();
    if (violation)
        std::cout << "failing law: " << vlaw << "\n" << vmsg << "\n" << vdesc << "\n";
    return violation ? 1 : 0;
}

inline int pbtMain(int argc, char **argv, const char *prop, const char *rule, uint64_t quick, uint64_t thorough) {
    auto &C = cfg();
    C.property = prop;
    C.rule = rule;
    std::string replay, import;
    double scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            C.seed = std::stoull(val());
        else if (a == "--thorough")
            C.thorough = 1;
        else if (a == "--cases")
            C.cases = std::stoull(val());
        else if (a == "--scale")
            scale = std::stod(val());
        else if (a == "--workers")
            C.workers = std::stoul(val());
        else if (a == "--out")
            C.out = val();
        else if (a == "--replay-out")
            C.replayOut = val();
        else if (a == "--tmp")
            C.tmp = val();
        else if (a == "--law")
            C.onlyLaw = val();
        else if (a == "--replay")
            replay = val();
        else if (a == "--import")
            import = val();
        else if (a == "--budget")
            C.budget = std::stod(val());
        else if (a == "--laws") {
            for (auto &l : laws())
                std::cout << l.name << ": " << l.what << "\n";
            return 0;
        } else {
            std::cerr << "unknown option " << a << "\n";
            return 3;
        }
    }
    if (!replay.empty()) {
        auto h = readReplay(replay);
        RunResult r;
        for (int t = 0; t < 3 && !r.failed; ++t)
            r = runOnce(h, true);
        if (r.failed) {
            std::cout << r.msg << "\n" << r.desc << "\n";
            return 1;
        }
        std::cout << "the replayed case holds\n" << r.desc << "\n";
        return 0;
    }
    if (!import.empty()) { // a fuzzer artifact: confirm, shrink, write the replay
        std::ifstream f(import, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (d.size() < 2)
            return 0;
        Entry e;
        e.bytes.assign(d.begin(), d.end());
        e.law = (uint8_t)d[0] % laws().size();
        RunResult r = runOnce({e}, true);
        if (!r.failed)
            return 0;
        Entry b;
        b.law = e.law;
        b.choices = r.choices;
        if (!runOnce({b}).failed)
            return 0;
        b.choices = Shrinker(b.law, b.choices, 60, C.cpuLimit).run();
        r = runOnce({b}, true);
        if (!r.failed)
            return 0;
        writeReplay(C.replayOut, {b}, r);
        std::cout << laws()[b.law].name << ": " << r.msg << "\n" << r.desc << "\n";
        return 1;
    }
    if (C.thorough && C.budget == 240)
        C.budget = 500;
    if (!C.cases)
        C.cases = C.thorough ? thorough : quick;
    C.cases = std::max<uint64_t>(C.workers, (uint64_t)(C.cases * scale));
    return runAll();
}

} // namespace pbt

// A libFuzzer build (-DPBT_FUZZ) turns the same laws into one fuzz target:
// the first byte selects the law, the others are the choices.
#ifdef PBT_FUZZ
#define PBT_MAIN(prop, rule, quick, thorough)                                                      \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {                      \
        if (size < 2)                                                                              \
            return 0;                                                                              \
        auto &L = ::pbt::laws();                                                                   \
        static std::string *dump = [] {                                                            \
            ::pbt::cfg().property = prop;                                                          \
            int n = open("/dev/null", O_WRONLY);                                                   \
            dup2(n, 1);                                                                            \
            const char *d = getenv("PBT_FUZZ_OUT");                                                \
            return new std::string(d ? d : "/tmp/pbt_fuzz_out");                                   \
        }();                                                                                       \
        static ::pbt::Shared *sh = ::pbt::newShared();                                             \
        sh->nchoices = 0;                                                                          \
        ::pbt::Ctx c;                                                                              \
        c.mode = ::pbt::Mode::Bytes;                                                               \
        c.bytes = data + 1;                                                                        \
        c.nbytes = size - 1;                                                                       \
        c.sh = sh;                                                                                 \
        uint32_t law = data[0] % L.size();                                                         \
        std::string msg;                                                                           \
        if (::pbt::runLaw(c, law, msg) == ::pbt::Outcome::Failed) {                                \
            ::pbt::Entry e;                                                                        \
            e.law = law;                                                                           \
            e.choices.assign(sh->choices, sh->choices + sh->nchoices);                             \
            ::pbt::RunResult r;                                                                    \
            r.msg = msg;                                                                           \
            ::pbt::writeReplay(*dump, {e}, r);                                                     \
            __builtin_trap();                                                                      \
        }                                                                                          \
        return 0;                                                                                  \
    }
#else
#define PBT_MAIN(prop, rule, quick, thorough)                                                      \
    int main(int argc, char **argv) { return ::pbt::pbtMain(argc, argv, prop, rule, quick, thorough); }
#endif
