// Property-based testing engine: recorded choice sequences, forked workers, shrinking, replay.
//
// A clause is a function void f(pbt::Src&). It draws all its random choices from the Src and
// calls fail() (or one of the helpers) when the property is violated.
// Case i of a clause depends only on (VERIF_SEED, property, clause, i).
#pragma once
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <new>
#include <exception>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct Failure {
    std::string key, msg;
};
struct Skip {};

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
inline uint64_t hash_mix(uint64_t a, uint64_t b) {
    uint64_t s = a ^ (b * 0x9e3779b97f4a7c15ull + 0x7f4a7c15ull);
    return splitmix(s);
}

const size_t MAXCH = 1 << 16;

class Src {
  public:
    enum Mode { random, replay, bytes };
    explicit Src(uint64_t seed) : mode(random), state(seed) { splitmix(state); }
    explicit Src(const std::vector<uint64_t> *c) : mode(replay), rep(c) {}
    Src(const uint8_t *d, size_t n) : mode(bytes), data(d), dsize(n) {}

    // integer in [0,n], smaller is simpler
    uint64_t draw(uint64_t n) {
        uint64_t v = 0;
        if (mode == random) {
            v = splitmix(state);
            if (n != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * (n + 1)) >> 64);
        } else if (mode == replay) {
            if (pos < rep->size()) v = (*rep)[pos];
            if (v > n) v = n;
        } else {
            int nb = 0;
            for (uint64_t t = n; t; t >>= 8) nb++;
            for (int i = 0; i < nb; i++) v = (v << 8) | (dpos < dsize ? data[dpos++] : 0);
            if (n != UINT64_MAX) v %= n + 1;
        }
        pos++;
        if (used < MAXCH) {
            ch.push_back(v);
            used++;
            if (mirror) {
                mirror[used] = v;
                mirror[0] = used;
            }
        }
        return v;
    }
    bool exhausted() const { return mode == bytes && dpos >= dsize; }

    int integer(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }
    bool coin() { return draw(1); }
    bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; } // simplest: false
    // index of a weighted alternative, the first one is the simplest
    size_t pick(std::initializer_list<int> w) {
        int tot = 0;
        for (int x : w) tot += x;
        int v = (int)draw(tot - 1);
        size_t i = 0;
        for (int x : w) {
            if (v < x) return i;
            v -= x;
            i++;
        }
        return w.size() - 1;
    }
    double unit() { return (double)draw((1ull << 44) - 1) / (double)(1ull << 44); } // [0,1)
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double loguniform(double a, double b) {
        double u = unit();
        if (u == 0) return a;
        return a * std::exp(u * std::log(b / a));
    }

    // ---- reporting -------------------------------------------------------------
    bool verbose = false;
    std::string notes;
    bool is_nontrivial = false;
    uint64_t evals = 0;
    std::map<const char *, uint64_t> *labels = nullptr;

    void note(const char *f, ...) {
        if (!verbose) return;
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        if (!notes.empty()) notes += "; ";
        notes += buf;
        if (note_mirror) snprintf(note_mirror, note_size, "%s", notes.c_str());
    }
    char *note_mirror = nullptr; // kept up to date in case the process dies
    size_t note_size = 0;
    void label(const char *l) {
        if (labels) (*labels)[l]++;
    }
    void nontrivial() { is_nontrivial = true; }
    void eval(uint64_t n = 1) { evals += n; }

    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Failure{key, msg}; }
    [[noreturn]] void skip() { throw Skip(); }
    void check(bool ok, const char *key, const char *f, ...) {
        evals++;
        if (ok) return;
        char buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        throw Failure{key, buf};
    }
    // |got-want| <= rel*|want| + abs; both must be finite (or identical)
    void close(const char *what, double got, double want, double rel, double abs_ = 0) {
        evals++;
        if (got == want) return;
        double tol = rel * std::fabs(want) + abs_;
        if (std::fabs(got - want) <= tol) return;
        throw Failure{what, fmt("%s: got %.17g, expected %.17g (relative difference %.3g, allowed %.3g)", what, got, want,
                                std::fabs(got - want) / std::fabs(want), tol / std::fabs(want))};
    }

    const std::vector<uint64_t> &choices() const { return ch; }
    uint64_t *mirror = nullptr;

  private:
    Mode mode;
    uint64_t state = 0;
    const std::vector<uint64_t> *rep = nullptr;
    const uint8_t *data = nullptr;
    size_t dsize = 0, dpos = 0, pos = 0, used = 0;
    std::vector<uint64_t> ch;
};

struct Clause {
    const char *name;
    void (*fn)(Src &);
    long quick, thorough; // number of cases per tier
    const char *rule;     // how a case is made and what makes it non-trivial
};

struct Property {
    const char *id;
    std::vector<Clause> clauses;
};

// ---------------------------------------------------------------------------------

enum Status { PASS = 0, FAIL = 1, SKIP = 2, KNOWN = 3, CRASH = 4, HANG = 5 };

struct Options {
    std::string tier = "quick", out, replay_dir = ".", tmp;
    uint64_t seed = 1;
    int jobs = 8;
    double scale = 1;
    std::set<std::string> known;
    std::string only_clause;
    bool keep_going = false;
    int hang = 120;
};

inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126)
            r += fmt("\\u%04x", c);
        else
            r += c;
    }
    return r + "\"";
}

struct Outcome {
    Status st = PASS;
    std::string key, msg, notes;
    std::vector<uint64_t> ch;
};

// run one case in this process
inline Status run_case(const Clause &c, Src &s, const std::set<std::string> &known, std::string &key, std::string &msg) {
    try {
        c.fn(s);
        return PASS;
    } catch (Failure &f) {
        key = f.key;
        msg = f.msg;
        return known.count(f.key) ? KNOWN : FAIL;
    } catch (Skip &) {
        return SKIP;
    } catch (std::exception &e) {
        key = "exception";
        msg = std::string("unexpected C++ exception: ") + e.what();
        return FAIL;
    } catch (...) {
        key = "exception";
        msg = "unexpected C++ exception";
        return FAIL;
    }
}

struct Shared {
    int st;
    char key[256];
    char msg[6000];
    char notes[20000];
    uint64_t mirror[MAXCH + 1];
};

// run one case in a child process: from a seed or from a choice list, possibly after other cases given by their seeds
inline Outcome run_isolated(const Clause &c, const Options &o, const uint64_t *seed, const std::vector<uint64_t> *chs, int limit,
                            const std::vector<uint64_t> *before = nullptr) {
    static Shared *sh = nullptr;
    if (!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->st = -1;
    sh->key[0] = sh->msg[0] = sh->notes[0] = 0;
    sh->mirror[0] = 0;
    std::string errf = o.tmp + "/stderr";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
        if (before)
            for (uint64_t x : *before) {
                alarm(limit);
                Src s(x);
                std::string key, msg;
                run_case(c, s, o.known, key, msg);
            }
        alarm(limit);
        Src s = seed ? Src(*seed) : Src(chs);
        s.mirror = sh->mirror;
        s.note_mirror = sh->notes;
        s.note_size = sizeof sh->notes;
        s.verbose = true;
        std::string key, msg;
        Status st = run_case(c, s, o.known, key, msg);
        alarm(0);
        snprintf(sh->key, sizeof sh->key, "%s", key.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        snprintf(sh->notes, sizeof sh->notes, "%s", s.notes.c_str());
        sh->st = st;
        _exit(0);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
    }
    Outcome r;
    r.ch.assign(sh->mirror + 1, sh->mirror + 1 + sh->mirror[0]);
    r.notes = sh->notes;
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM) {
        r.st = HANG;
        r.key = "hang";
        r.msg = fmt("the case did not finish within %d s", limit);
    } else if (WIFSIGNALED(ws) || sh->st < 0) {
        r.st = CRASH;
        r.key = "crash";
        std::string err;
        if (FILE *f = fopen(errf.c_str(), "r")) {
            char buf[1500];
            size_t n = fread(buf, 1, sizeof buf, f);
            err.assign(buf, n);
            fclose(f);
        }
        r.msg = WIFSIGNALED(ws) ? fmt("process killed by signal %d", WTERMSIG(ws)) : fmt("process exited with status %d", WEXITSTATUS(ws));
        if (!err.empty()) r.msg += ": " + err;
    } else {
        r.st = (Status)sh->st;
        r.key = sh->key;
        r.msg = sh->msg;
    }
    return r;
}
inline bool bad(Status s) { return s == FAIL || s == CRASH || s == HANG; }

inline Outcome shrink(const Clause &c, const Options &o, Outcome best) {
    double t0 = now();
    int execs = 0;
    if (best.st == HANG) return best;
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (cand == best.ch || execs > 1500 || now() - t0 > 60) return false;
        execs++;
        Outcome r = run_isolated(c, o, nullptr, &cand, 20);
        if (r.st != best.st) return false;
        if (r.ch.size() > best.ch.size()) return false;
        if (r.ch.size() == best.ch.size() && !(r.ch < best.ch)) return false;
        best = r;
        return true;
    };
    bool improved = true;
    while (improved && execs <= 1500 && now() - t0 <= 60) {
        improved = false;
        for (size_t k : {32, 16, 8, 4, 2, 1}) // delete chunks
            for (size_t i = best.ch.size(); i-- > 0;) {
                if (i + k > best.ch.size()) continue;
                auto cand = best.ch;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) improved = true;
            }
        for (size_t k : {16, 4, 1}) // zero chunks
            for (size_t i = 0; i < best.ch.size(); i += k) {
                auto cand = best.ch;
                bool any = false;
                for (size_t j = i; j < std::min(i + k, cand.size()); j++) any |= cand[j] != 0, cand[j] = 0;
                if (any && attempt(cand)) improved = true;
            }
        for (size_t i = 0; i < best.ch.size(); i++) { // lower single choices
            uint64_t lo = 0;
            for (int it = 0; it < 50 && i < best.ch.size() && lo < best.ch[i]; it++) {
                auto cand = best.ch;
                uint64_t mid = lo + (best.ch[i] - lo) / 2;
                cand[i] = mid;
                if (attempt(cand))
                    improved = true;
                else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

// a failure that needs earlier cases in the same process: fewer of them
inline std::vector<uint64_t> shrink_history(const Clause &c, const Options &o, uint64_t seed, std::vector<uint64_t> h) {
    double t0 = now();
    auto fails = [&](const std::vector<uint64_t> &x) { return now() - t0 < 60 && bad(run_isolated(c, o, &seed, nullptr, o.hang, &x).st); };
    for (size_t k = 1; k < h.size(); k *= 2) { // the last ones
        std::vector<uint64_t> x(h.end() - k, h.end());
        if (fails(x)) {
            h = x;
            break;
        }
    }
    for (size_t k = h.size() / 2; k > 0; k /= 2) // delete chunks
        for (size_t i = 0; i + k <= h.size();) {
            auto x = h;
            x.erase(x.begin() + i, x.begin() + i + k);
            if (fails(x))
                h = x;
            else
                i += k;
        }
    return h;
}

struct ClauseResult {
    std::string name, rule;
    long cases = 0, skipped = 0;
    uint64_t evals = 0, nontrivial = 0, distinct = 0;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::string> known; // key -> message
    std::vector<std::string> samples;
    bool violated = false, unreproduced = false;
    Outcome failure;
    std::string replay;
    double wall = 0;
};

struct Control {
    std::atomic<long> next, minfail;
    std::atomic<long> current[256];
};

inline uint64_t case_seed(const Options &o, const Property &p, const Clause &c, long i) {
    return hash_mix(hash_mix(hash_str(std::string(p.id) + "/" + c.name), o.seed), (uint64_t)i);
}

inline void worker(const Property &p, const Clause &c, const Options &o, Control *ctl, int w, long N, long chunk) {
    struct Rec {
        long skipped = 0;
        uint64_t evals = 0, nontrivial = 0;
    } rec;
    std::map<const char *, uint64_t> labels;
    std::map<std::string, std::pair<long, std::string>> known;
    std::vector<uint64_t> hashes;
    std::map<long, std::string> samples;
    long done = 0;
    std::string base = o.tmp + "/" + c.name + "." + std::to_string(w);
    FILE *order = fopen((base + ".o").c_str(), "w");
    for (;;) {
        long b = ctl->next.fetch_add(chunk);
        if (b >= N || b > ctl->minfail.load()) break;
        if (order) {
            fprintf(order, "%ld %ld\n", b, std::min(N, b + chunk));
            fflush(order);
        }
        for (long i = b; i < std::min(N, b + chunk); i++) {
            if (i > ctl->minfail.load()) break;
            ctl->current[w].store(i);
            alarm(o.hang);
            Src s(case_seed(o, p, c, i));
            s.labels = &labels;
            s.verbose = i < 12;
            std::string key, msg;
            Status st = run_case(c, s, o.known, key, msg);
            alarm(0);
            done++;
            rec.evals += s.evals;
            if (st == SKIP)
                rec.skipped++;
            else if (s.is_nontrivial) {
                rec.nontrivial++;
                uint64_t h = 7;
                for (uint64_t v : s.choices()) h = hash_mix(h, v);
                hashes.push_back(h);
                if (s.verbose) samples[i] = s.notes;
            }
            if (st == KNOWN && !known.count(key)) known[key] = {i, msg};
            if (st == FAIL) {
                long m = ctl->minfail.load();
                while (i < m && !ctl->minfail.compare_exchange_weak(m, i)) {
                }
            }
        }
    }
    ctl->current[w].store(-1);
    if (order) fclose(order);
    if (FILE *f = fopen((base + ".h").c_str(), "wb")) {
        if (!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f);
        fclose(f);
    }
    if (FILE *f = fopen((base + ".t").c_str(), "wb")) {
        fprintf(f, "C %ld %ld %lu %lu\n", done, rec.skipped, (unsigned long)rec.evals, (unsigned long)rec.nontrivial);
        for (auto &l : labels) fprintf(f, "L %lu %s\n", (unsigned long)l.second, l.first);
        auto oneline = [](std::string t) {
            for (char &ch : t)
                if (ch == '\n') ch = ' ';
            return t;
        };
        for (auto &k : known) fprintf(f, "K %s %s\n", k.first.c_str(), oneline(k.second.second).c_str());
        for (auto &k : samples) fprintf(f, "S %ld %s\n", k.first, oneline(k.second).c_str());
        fclose(f);
    }
}

inline ClauseResult run_clause(const Property &p, const Clause &c, const Options &o, long start = 0, int attempt = 0) {
    ClauseResult r;
    double t0 = now();
    r.name = c.name;
    r.rule = c.rule;
    long N = std::max(1L, (long)std::llround((o.tier == "thorough" ? c.thorough : c.quick) * o.scale));
    int W = std::min<long>(o.jobs, N);
    long chunk = std::max(1L, std::min(512L, N / (W * 40L)));
    Control *ctl = (Control *)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ctl->next.store(start);
    ctl->minfail.store(LONG_MAX);
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < W; w++) {
        ctl->current[w].store(-1);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open((o.tmp + "/wstderr." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) {
                dup2(fd, 2);
                close(fd);
            }
            worker(p, c, o, ctl, w, N, chunk);
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (int w = 0; w < W; w++) {
        int ws = 0;
        while (waitpid(pids[w], &ws, 0) < 0 && errno == EINTR) {
        }
        if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) {
            long i = ctl->current[w].load();
            if (i >= 0) {
                long m = ctl->minfail.load();
                while (i < m && !ctl->minfail.compare_exchange_weak(m, i)) {
                }
            }
        }
    }
    std::vector<uint64_t> hashes;
    std::map<long, std::string> samples;
    std::vector<uint64_t> before; // the cases before the failed one in the same process
    for (int w = 0; w < W; w++) {
        std::string base = o.tmp + "/" + c.name + "." + std::to_string(w);
        if (FILE *f = fopen((base + ".o").c_str(), "r")) {
            long b, e, mf = ctl->minfail.load();
            std::vector<uint64_t> h;
            bool here = false;
            while (!here && fscanf(f, "%ld %ld", &b, &e) == 2)
                for (long i = b; i < e && !here; i++) {
                    if (i == mf) here = true;
                    else if (mf != LONG_MAX) h.push_back(case_seed(o, p, c, i));
                }
            if (here) before = h;
            fclose(f);
            unlink((base + ".o").c_str());
        }
        if (FILE *f = fopen((base + ".h").c_str(), "rb")) {
            uint64_t buf[4096];
            size_t n;
            while ((n = fread(buf, 8, 4096, f)) > 0) hashes.insert(hashes.end(), buf, buf + n);
            fclose(f);
            unlink((base + ".h").c_str());
        }
        if (FILE *f = fopen((base + ".t").c_str(), "rb")) {
            char *line = nullptr;
            size_t cap = 0;
            ssize_t n;
            while ((n = getline(&line, &cap, f)) > 0) {
                std::string s(line, n);
                while (!s.empty() && s.back() == '\n') s.pop_back();
                if (s[0] == 'C') {
                    long d, k;
                    unsigned long e, nt;
                    sscanf(s.c_str(), "C %ld %ld %lu %lu", &d, &k, &e, &nt);
                    r.cases += d;
                    r.skipped += k;
                    r.evals += e;
                    r.nontrivial += nt;
                } else if (s[0] == 'L') {
                    unsigned long v;
                    int off = 0;
                    sscanf(s.c_str(), "L %lu %n", &v, &off);
                    r.labels[s.substr(off)] += v;
                } else if (s[0] == 'K') {
                    size_t sp = s.find(' ', 2);
                    r.known[s.substr(2, sp - 2)] = s.substr(sp + 1);
                } else if (s[0] == 'S') {
                    long i;
                    int off = 0;
                    sscanf(s.c_str(), "S %ld %n", &i, &off);
                    samples[i] = s.substr(off);
                }
            }
            free(line);
            fclose(f);
            unlink((base + ".t").c_str());
        }
    }
    std::sort(hashes.begin(), hashes.end());
    r.distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
    for (auto &k : samples) {
        if (r.samples.size() >= 3) break;
        r.samples.push_back(k.second);
    }
    long mf = ctl->minfail.load();
    munmap(ctl, sizeof(Control));
    if (mf != LONG_MAX) {
        uint64_t seed = case_seed(o, p, c, mf);
        Outcome first = run_isolated(c, o, &seed, nullptr, o.hang);
        Outcome best = first;
        bool ok = bad(first.st);
        if (ok) {
            best = shrink(c, o, first);
            auto confirm = [&](const Outcome &x) {
                int n = 0;
                for (int k = 0; k < 3; k++)
                    if (bad(run_isolated(c, o, nullptr, &x.ch, o.hang).st)) n++;
                return n;
            };
            if (confirm(best) < 3) {
                best = first;
                if (first.st != HANG && confirm(first) < 2) ok = false;
            }
        } else { // did not fail again: try a few more times before giving up on it
            int n = 0;
            for (int k = 0; k < 4; k++) {
                Outcome x = run_isolated(c, o, &seed, nullptr, o.hang);
                if (bad(x.st)) n++, best = x;
            }
            ok = n >= 2;
        }
        if (ok)
            before.clear();
        else if (!before.empty() && bad(run_isolated(c, o, &seed, nullptr, o.hang, &before).st)) { // only after the earlier cases
            before = shrink_history(c, o, seed, before);
            int n = 0;
            for (int k = 0; k < 3; k++) {
                Outcome x = run_isolated(c, o, &seed, nullptr, o.hang, &before);
                if (bad(x.st)) n++, best = x;
            }
            ok = n == 3;
            best.notes = fmt("after %zu other cases in the same process: ", before.size()) + best.notes;
        }
        if (ok) {
            r.violated = true;
            r.failure = best;
            r.replay = o.replay_dir + "/" + p.id + "-" + c.name + ".json";
            if (FILE *f = fopen(r.replay.c_str(), "w")) {
                fprintf(f, "{\"property\": %s, \"clause\": %s, \"seed\": %lu, \"case\": %ld,\n \"kind\": %s,\n \"message\": %s,\n \"input\": %s,\n \"choices\": [",
                        jstr(p.id).c_str(), jstr(c.name).c_str(), (unsigned long)o.seed, mf, jstr(best.key).c_str(), jstr(best.msg).c_str(),
                        jstr(best.notes).c_str());
                for (size_t i = 0; i < best.ch.size(); i++) fprintf(f, "%s%lu", i ? "," : "", (unsigned long)best.ch[i]);
                fprintf(f, "]");
                if (!before.empty()) {
                    fprintf(f, ",\n \"seeds\": [");
                    for (uint64_t x : before) fprintf(f, "%lu,", (unsigned long)x);
                    fprintf(f, "%lu]", (unsigned long)seed);
                }
                fprintf(f, "}\n");
                fclose(f);
            }
        } else {
            r.unreproduced = true;
            if (attempt < 3 && mf + 1 < N) { // leave it out and go on behind it
                ClauseResult x = run_clause(p, c, o, mf + 1, attempt + 1);
                r.cases += x.cases;
                r.skipped += x.skipped;
                r.evals += x.evals;
                r.nontrivial += x.nontrivial;
                r.distinct += x.distinct;
                for (auto &l : x.labels) r.labels[l.first] += l.second;
                r.known.insert(x.known.begin(), x.known.end());
                r.violated = x.violated;
                r.failure = x.failure;
                r.replay = x.replay;
            }
        }
    }
    r.wall = now() - t0;
    return r;
}

inline int run_property(const Property &p, const Options &o) {
    std::vector<ClauseResult> rs;
    bool any = false;
    for (auto &c : p.clauses) {
        if (!o.only_clause.empty() && o.only_clause != c.name) continue;
        rs.push_back(run_clause(p, c, o));
        auto &r = rs.back();
        printf("%s/%s: %ld cases, %lu comparisons, %lu distinct non-trivial, %ld skipped, %.1f s%s\n", p.id, c.name, r.cases,
               (unsigned long)r.evals, (unsigned long)r.distinct, r.skipped, r.wall,
               r.violated ? "  ** VIOLATED **" : (r.unreproduced ? "  (a failure did not reproduce)" : ""));
        if (getenv("VERIF_LABELS"))
            for (auto &l : r.labels) printf("      %-40s %lu\n", l.first.c_str(), (unsigned long)l.second);
        if (r.violated) {
            any = true;
            printf("  %s\n  input: %s\n", r.failure.msg.c_str(), r.failure.notes.c_str());
        }
        fflush(stdout);
        if (any && !o.keep_going) break;
    }
    if (!o.out.empty()) {
        FILE *f = fopen(o.out.c_str(), "w");
        if (!f) return 2;
        fprintf(f, "{\"property\": %s, \"clauses\": [", jstr(p.id).c_str());
        bool first = true;
        for (auto &r : rs) {
            fprintf(f, "%s\n {\"name\": %s, \"rule\": %s, \"cases\": %ld, \"skipped\": %ld, \"comparisons\": %lu, \"nontrivial\": %lu, \"distinct_nontrivial\": %lu, \"wall_s\": %.3f,\n  \"labels\": {",
                    first ? "" : ",", jstr(r.name).c_str(), jstr(r.rule).c_str(), r.cases, r.skipped, (unsigned long)r.evals,
                    (unsigned long)r.nontrivial, (unsigned long)r.distinct, r.wall);
            first = false;
            bool f2 = true;
            for (auto &l : r.labels) {
                fprintf(f, "%s%s: %lu", f2 ? "" : ", ", jstr(l.first).c_str(), (unsigned long)l.second);
                f2 = false;
            }
            fprintf(f, "},\n  \"known\": {");
            f2 = true;
            for (auto &l : r.known) {
                fprintf(f, "%s%s: %s", f2 ? "" : ", ", jstr(l.first).c_str(), jstr(l.second).c_str());
                f2 = false;
            }
            fprintf(f, "},\n  \"samples\": [");
            f2 = true;
            for (auto &s : r.samples) {
                fprintf(f, "%s%s", f2 ? "" : ", ", jstr(s).c_str());
                f2 = false;
            }
            fprintf(f, "],\n  \"violated\": %s, \"unreproduced\": %s, \"kind\": %s, \"message\": %s, \"replay\": %s}", r.violated ? "true" : "false",
                    r.unreproduced ? "true" : "false", jstr(r.failure.key).c_str(), jstr(r.failure.msg).c_str(), jstr(r.replay).c_str());
        }
        fprintf(f, "\n]}\n");
        fclose(f);
    }
    return any ? 1 : 0;
}

inline int main_(int argc, char **argv, const Property &p) {
    Options o;
    std::string replay_clause, replay_choices, replay_seeds;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") o.out = val();
        else if (a == "--replays") o.replay_dir = val();
        else if (a == "--tmp") o.tmp = val();
        else if (a == "--jobs") o.jobs = atoi(val().c_str());
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--known") o.known.insert(val());
        else if (a == "--clause") o.only_clause = val();
        else if (a == "--hang") o.hang = atoi(val().c_str());
        else if (a == "--keep-going") o.keep_going = true;
        else if (a == "--replay-clause") replay_clause = val();
        else if (a == "--replay-choices") replay_choices = val();
        else if (a == "--replay-seeds") replay_seeds = val();
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (o.tmp.empty()) {
        char t[] = "/tmp/pbtXXXXXX";
        if (!mkdtemp(t)) return 2;
        o.tmp = t;
    }
    if (o.jobs > 256) o.jobs = 256;
    if (!replay_clause.empty()) {
        auto list = [](const std::string &t) {
            std::vector<uint64_t> r;
            const char *q = t.c_str();
            while (*q) {
                char *e;
                uint64_t v = strtoull(q, &e, 10);
                if (e == q) break;
                r.push_back(v);
                q = (*e == ',') ? e + 1 : e;
            }
            return r;
        };
        std::vector<uint64_t> ch = list(replay_choices), before = list(replay_seeds);
        uint64_t last = 0;
        if (!before.empty()) last = before.back(), before.pop_back();
        for (auto &c : p.clauses)
            if (replay_clause == c.name) {
                Outcome r = replay_seeds.empty() ? run_isolated(c, o, nullptr, &ch, o.hang) : run_isolated(c, o, &last, nullptr, o.hang, &before);
                printf("input: %s\n", r.notes.c_str());
                if (bad(r.st)) {
                    printf("violated: %s\n", r.msg.c_str());
                    return 1;
                }
                printf("holds (status %d)\n", r.st);
                return 0;
            }
        fprintf(stderr, "no such clause\n");
        return 2;
    }
    return run_property(p, o);
}

// one execution of a coverage-guided fuzzer: the bytes are the choices; a failed comparison ends the process
template <class F> int fuzz_one(const uint8_t *d, size_t n, F f) {
    Src s(d, n);
    s.verbose = true;
    try {
        f(s);
    } catch (const Skip &) {
    } catch (const Failure &e) {
        fprintf(stderr, "violated: %s\ninput: %s\n", e.msg.c_str(), s.notes.c_str());
        abort();
    }
    return 0;
}
} // namespace pbt
