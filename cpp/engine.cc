#include "engine.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <exception>
#include <stdexcept>

namespace eng {

// ---------------------------------------------------------------- PRNG
static uint64_t splitmix(uint64_t & x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

uint64_t hash64(const void * data, size_t len, uint64_t seed) {
    const uint8_t * p = static_cast<const uint8_t *>(data);
    uint64_t h = seed ^ 0xCBF29CE484222325ULL;
    for (size_t i = 0; i < len; ++i) { h ^= p[i]; h *= 0x100000001B3ULL; }
    return splitmix(h);
}

Src::Src(uint64_t seed, int size) : mode_(GEN), size_(size) {
    uint64_t x = seed;
    s_[0] = splitmix(x); s_[1] = splitmix(x) | 1;
}
Src::Src(const std::vector<uint64_t> & c, int size) : mode_(REPLAY), in_(c), size_(size) { s_[0] = s_[1] = 1; }
Src::Src(const uint8_t * data, size_t len) : mode_(BYTES), data_(data), len_(len), size_(100) { s_[0] = s_[1] = 1; }

uint64_t Src::next() {  // xoroshiro128+
    const uint64_t a = s_[0]; uint64_t b = s_[1]; const uint64_t r = a + b;
    b ^= a;
    s_[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s_[1] = (b << 37) | (b >> 27);
    return r;
}

uint64_t Src::draw(uint64_t max) {
    uint64_t v = 0;
    if (mode_ == GEN) {
        if (max == ~0ULL) v = next();
        else v = static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * (max + 1)) >> 64);
    } else if (mode_ == REPLAY) {
        v = pos_ < in_.size() ? in_[pos_] : 0;
        ++pos_;
        if (v > max) v = max == ~0ULL ? v : v % (max + 1);
    } else {
        int bytes = max < 256 ? 1 : max < 65536 ? 2 : max < (1ULL << 32) ? 4 : 8;
        if (max == 0) bytes = 0;
        for (int i = 0; i < bytes; ++i) { v = (v << 8) | (pos_ < len_ ? data_[pos_] : 0); ++pos_; }
        if (max != ~0ULL) v %= (max + 1);
    }
    rec_.push_back(v);
    if (rec_.size() > 200000) throw Discard();
    return v;
}

bool Src::boolean(int num, int den) {
    return static_cast<int>(draw(den - 1)) >= den - num;
}
int64_t Src::integer(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
}
int64_t Src::small(int64_t lo, int64_t hi) {
    uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
    int bits = 0;
    while (bits < 63 && (1ULL << bits) <= span) ++bits;
    uint64_t b = draw(bits);
    uint64_t cap = b >= 63 ? span : std::min<uint64_t>(span, (1ULL << b) - 1);
    return lo + static_cast<int64_t>(draw(cap));
}
int Src::length(int lo, int hi) {
    int cap = lo + static_cast<int>((static_cast<int64_t>(hi - lo) * size_ + 99) / 100);
    return static_cast<int>(integer(lo, cap));
}
double Src::unit() { return static_cast<double>(draw(1 << 20)) / (1 << 20); }
double Src::real(double lo, double hi) { return lo + (hi - lo) * unit(); }
double Src::logreal(double lo, double hi) {
    static const double nice[] = {1, 2, 0.5, 10, 0.1, 3, 5, 100, 0.01, 1.5, 0.25, 1000};
    if (draw(3) == 0) {
        double v = nice[draw(11)];
        if (v >= lo && v <= hi) return v;
    }
    return lo * std::pow(hi / lo, unit());
}
int Src::weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w) total += x;
    int v = static_cast<int>(draw(total - 1)), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}

// ---------------------------------------------------------------- floats
bool is_nan(double x) { uint64_t u; memcpy(&u, &x, 8); return (u & 0x7FFFFFFFFFFFFFFFULL) > 0x7FF0000000000000ULL; }
bool is_finite(double x) { uint64_t u; memcpy(&u, &x, 8); return (u & 0x7FF0000000000000ULL) != 0x7FF0000000000000ULL; }
bool is_nanf(float x) { uint32_t u; memcpy(&u, &x, 4); return (u & 0x7FFFFFFFU) > 0x7F800000U; }
bool is_finitef(float x) { uint32_t u; memcpy(&u, &x, 4); return (u & 0x7F800000U) != 0x7F800000U; }
bool is_neg_inf(double x) { uint64_t u; memcpy(&u, &x, 8); return u == 0xFFF0000000000000ULL; }
bool near(double a, double b, double tol) {
    if (is_nan(a) || is_nan(b) || is_nan(tol)) return false;
    if (!is_finite(a) || !is_finite(b)) return memcmp(&a, &b, 8) == 0;
    return std::fabs(a - b) <= tol;
}
bool within(double a, double lo, double hi, double tol) {
    if (is_nan(a) || is_nan(lo) || is_nan(hi) || is_nan(tol)) return false;
    if (lo > hi) std::swap(lo, hi);
    return a >= lo - tol && a <= hi + tol;
}
std::string fmt(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
void fail(const std::string & msg) { throw Fail{msg}; }

std::vector<Target> & targets() { static std::vector<Target> t; return t; }

// ---------------------------------------------------------------- running
struct Result { int status; std::string msg; };  // 0 pass, 1 fail, 2 discard

static Result run_one(const Target & t, Src & src) {
    try {
        t.fn(src);
        return {0, ""};
    } catch (const Fail & f) {
        return {1, f.msg};
    } catch (const Discard &) {
        return {2, ""};
    } catch (const std::exception & e) {
        return {1, std::string("unexpected exception: ") + e.what()};
    } catch (...) {
        return {1, "unexpected exception of unknown type"};
    }
}

static int g_cpu_limit = 40;  // CPU seconds one case may take before it counts as a hang

static void arm_cpu(int seconds) {
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

struct ChildOut { int status; std::string msg; std::string log; std::vector<uint64_t> rec; };

static void put(int fd, const void * p, size_t n) {
    const char * c = static_cast<const char *>(p);
    while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(99); c += k; n -= k; }
}

// Replays choices in a forked child.
static ChildOut run_child(const Target & t, const std::vector<uint64_t> & choices, bool verbose, int size = 100) {
    int fd[2];
    if (pipe(fd)) abort();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        int null = open("/dev/null", O_WRONLY);
        if (!verbose) { dup2(null, 2); }
        dup2(verbose ? 2 : null, 1);
        signal(SIGPROF, SIG_DFL);
        arm_cpu(g_cpu_limit);
        Src src(choices, size);
        src.verbose = verbose;
        Result r = run_one(t, src);
        uint64_t n[4] = {static_cast<uint64_t>(r.status), r.msg.size(), 0, src.choices().size()};
        std::string log = src.log.str();
        n[2] = log.size();
        put(fd[1], n, sizeof n);
        put(fd[1], r.msg.data(), r.msg.size());
        put(fd[1], log.data(), log.size());
        put(fd[1], src.choices().data(), src.choices().size() * 8);
        _exit(0);
    }
    close(fd[1]);
    std::string buf;
    char tmp[65536];
    ssize_t k;
    while ((k = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    ChildOut out{1, "", "", {}};
    uint64_t n[4];
    bool whole = buf.size() >= sizeof n;
    if (whole) {
        memcpy(n, buf.data(), sizeof n);
        whole = buf.size() == sizeof n + n[1] + n[2] + 8 * n[3];
    }
    if (whole && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        out.status = static_cast<int>(n[0]);
        out.msg = buf.substr(sizeof n, n[1]);
        out.log = buf.substr(sizeof n + n[1], n[2]);
        out.rec.resize(n[3]);
        if (n[3]) memcpy(out.rec.data(), buf.data() + sizeof n + n[1] + n[2], 8 * n[3]);
        return out;
    }
    out.rec = choices;
    std::ostringstream m;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) m << "hang: no result after " << g_cpu_limit << " s of CPU time";
    else if (WIFSIGNALED(st)) m << "crash: signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    else m << "crash: exit status " << WEXITSTATUS(st) << " (sanitizer report or abort)";
    out.msg = m.str();
    return out;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::vector<uint64_t> shrink(const Target & t, std::vector<uint64_t> best, double budget, std::string & msg) {
    double end = now() + budget;
    int tries = 0;
    auto attempt = [&](const std::vector<uint64_t> & c) {
        if (now() > end || ++tries > 4000) return false;
        ChildOut o = run_child(t, c, false);
        if (o.status != 1) return false;
        std::vector<uint64_t> rec = o.rec;
        if (rec.size() > c.size()) rec.resize(c.size());
        // only accept simplifications
        if (rec.size() < best.size() || (rec.size() == best.size() && rec < best)) { best = rec; msg = o.msg; return true; }
        return false;
    };
    if (msg.compare(0, 4, "hang") == 0) g_cpu_limit = 10;
    bool progress = true;
    while (progress && now() < end && tries < 4000) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size();) {
                std::vector<uint64_t> c(best.begin(), best.begin() + i);
                c.insert(c.end(), best.begin() + i + chunk, best.end());
                if (attempt(c)) progress = true; else i += chunk;
                if (now() > end || tries >= 4000) break;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c = best;
            c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;  // binary search for the least failing value
            while (i < best.size() && lo + 1 < hi) {
                c = best;
                c[i] = lo + (hi - lo) / 2;
                uint64_t mid = c[i];
                if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
            }
            // also try deleting together with a preceding count decrement
            if (i + 1 < best.size() && best[i] > 0) {
                c = best;
                c[i] -= 1;
                c.erase(c.begin() + i + 1);
                if (attempt(c)) progress = true;
            }
        }
    }
    return best;
}

static std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Slot { volatile uint64_t target, index, active; };

static uint64_t case_seed(uint64_t seed, const std::string & name, uint64_t i) {
    uint64_t h = hash64(name.data(), name.size(), seed * 0x9E3779B97F4A7C15ULL + 12345);
    h ^= i * 0xD1342543DE82EF95ULL;
    return splitmix(h);
}
static int case_size(uint64_t i, uint64_t n) {
    // sizes sweep 1..100 over the run, cycling so that every shard sees all sizes
    if (n < 50) return static_cast<int>(10 + (i * 90) / (n ? n : 1));
    return static_cast<int>(1 + (i * 37) % 100);
}

}  // namespace eng

using namespace eng;

#ifdef ENGINE_FUZZER
extern "C" const char * __asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"; }
static const Target * fuzz_target() {
    const char * n = getenv("ENGINE_TARGET");
    for (auto & t : targets()) if (!n || t.name == n) return &t;
    abort();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t len) {
    static const Target * t = fuzz_target();
    Src src(data, len);
    Result r = run_one(*t, src);
    if (r.status == 1) {
        fprintf(stderr, "ENGINE-FAIL %s: %s\n", t->name.c_str(), r.msg.c_str());
        abort();
    }
    return 0;
}
#else
extern "C" const char * __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0"; }
extern "C" const char * __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }

// Regenerates the choices of a failing case in a child (publishing them even when it crashes),
// shrinks them, checks that the failure is stable, and writes the replay file.
template<class Make> static int report(const Target & t, Make make, double shrink_seconds, const std::string & path) {
    const size_t cap = 200010;
    uint64_t * shared = static_cast<uint64_t *>(mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1); dup2(null, 2);
        arm_cpu(g_cpu_limit);
        static Src * the_src; static uint64_t * the_out;
        Src src = make();
        the_src = &src; the_out = shared;
        static void (*flush_fn)(int) = [](int sig) {
            const auto & r = the_src->choices();
            size_t n = std::min<size_t>(r.size(), 200000);
            memcpy(the_out + 1, r.data(), n * 8);
            the_out[0] = n;
            if (sig) { signal(sig, SIG_DFL); raise(sig); }
        };
        for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) signal(sig, flush_fn);
        atexit([]() { flush_fn(0); });
        Result r = run_one(t, src);
        flush_fn(0);
        _exit(r.status);
    }
    int status;
    waitpid(pid, &status, 0);
    std::vector<uint64_t> c(shared + 1, shared + 1 + shared[0]);
    munmap(shared, cap * 8);
    ChildOut o = run_child(t, c, false);
    std::string msg = o.msg;
    if (o.status != 1) { printf("UNREPRODUCED target=%s\n", t.name.c_str()); return 0; }
    c = shrink(t, c, shrink_seconds, msg);
    int again = 0;
    ChildOut last{0, "", "", {}};
    for (int r = 0; r < 3; ++r) { last = run_child(t, c, true); again += last.status == 1; }
    if (again != 3) { printf("FLAKY target=%s failed %d of 3 replays\n", t.name.c_str(), again); return 0; }
    for (auto & ch : last.msg) if (ch == '\n' || ch == '\t') ch = ' ';
    std::ofstream rf(path);
    rf << "# " << last.msg << "\n" << t.name << "\n";
    for (uint64_t v : c) rf << v << " ";
    rf << "\n";
    std::istringstream lg(last.log);
    std::string line;
    while (std::getline(lg, line)) rf << "# " << line << "\n";
    rf.close();
    printf("FAILURE\t%s\t%s\t%s\n", t.name.c_str(), path.c_str(), last.msg.substr(0, 600).c_str());
    return 1;
}

int main(int argc, char ** argv) {
    uint64_t seed = 1, cases = 1000;
    int jobs = 4;
    double max_seconds = 600, shrink_seconds = 20;
    std::string only, replay, bytes, evidence = "", replay_dir = ".", tag = "";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--max-seconds") max_seconds = atof(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--replay") replay = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--tag") tag = val();
        else if (a == "--from-bytes") bytes = val();
        else if (a == "--list") { for (auto & t : targets()) printf("%s\n", t.name.c_str()); return 0; }
    }
    std::sort(targets().begin(), targets().end(), [](const Target & a, const Target & b) { return a.name < b.name; });

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string name, line;
        while (std::getline(f, name) && (name.empty() || name[0] == '#')) {}
        std::vector<uint64_t> c;
        while (std::getline(f, line)) {
            if (!line.empty() && line[0] == '#') continue;
            std::istringstream s(line);
            uint64_t v;
            while (s >> v) c.push_back(v);
        }
        for (auto & t : targets()) if (t.name == name) {
            ChildOut o = run_child(t, c, true);
            printf("%s\n%s\n", o.log.c_str(), o.status == 1 ? ("FAIL " + o.msg).c_str() : o.status == 2 ? "DISCARD" : "PASS");
            return o.status == 1;
        }
        fprintf(stderr, "no target %s\n", name.c_str());
        return 3;
    }

    if (!bytes.empty()) {  // a libFuzzer artifact of target --only
        std::ifstream f(bytes, std::ios::binary);
        static std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        mkdir(replay_dir.c_str(), 0777);
        for (auto & t : targets()) if (t.name == only)
            return report(t, [&]() { return Src(reinterpret_cast<const uint8_t *>(data.data()), data.size()); },
                          shrink_seconds, replay_dir + "/" + tag + t.name + ".replay");
        return 3;
    }

    std::vector<Target> ts;
    for (auto & t : targets()) if (only.empty() || t.name.compare(0, only.size(), only) == 0) ts.push_back(t);
    double wsum = 0;
    for (auto & t : ts) wsum += t.weight;
    std::vector<uint64_t> count;
    for (auto & t : ts) count.push_back(std::max<uint64_t>(1, static_cast<uint64_t>(cases * t.weight / wsum)));

    Slot * slots = static_cast<Slot *>(mmap(0, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    double start = now();
    std::vector<pid_t> pids;
    std::vector<int> fds;
    for (int j = 0; j < jobs; ++j) {
        int fd[2];
        if (pipe(fd)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            for (int f : fds) close(f);
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            if (!getenv("ENGINE_VERBOSE")) dup2(null, 2);
            std::ostringstream out;
            for (size_t k = 0; k < ts.size(); ++k) {
                uint64_t run = 0, disc = 0, nontriv = 0, choices = 0;
                std::map<std::string, uint64_t> labels;
                std::vector<uint64_t> hashes, sample_idx;
                bool stopped = false;
                double tstart = now();
                for (uint64_t i = j; i < count[k]; i += jobs) {
                    if (now() - start > max_seconds) { stopped = true; break; }
                    slots[j].target = k; slots[j].index = i; slots[j].active = 1;
                    arm_cpu(g_cpu_limit);
                    Src src(case_seed(seed, ts[k].name, i), case_size(i, count[k]));
                    Result r = run_one(ts[k], src);
                    ++run;
                    choices += src.choices().size();
                    if (r.status == 2) { ++disc; continue; }
                    for (auto & l : src.labels()) ++labels[l];
                    if (src.is_nontrivial()) {
                        ++nontriv;
                        hashes.push_back(hash64(src.choices().data(), src.choices().size() * 8));
                        if (sample_idx.size() < 2) sample_idx.push_back(i);
                    }
                    if (r.status == 1) {
                        out << "F " << k << " " << i << "\n";
                        break;
                    }
                }
                arm_cpu(0);
                slots[j].active = 0;
                std::sort(hashes.begin(), hashes.end());
                hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
                out << "T " << k << " " << run << " " << disc << " " << nontriv << " " << choices << " " << stopped
                    << " " << now() - tstart << " " << hashes.size();
                for (uint64_t h : hashes) out << " " << h;
                out << "\n";
                for (auto & l : labels) out << "L " << k << " " << l.second << " " << l.first << "\n";
                for (uint64_t i : sample_idx) out << "S " << k << " " << i << "\n";
            }
            out << "E\n";
            std::string s = out.str();
            put(fd[1], s.data(), s.size());
            _exit(0);
        }
        close(fd[1]);
        pids.push_back(pid);
        fds.push_back(fd[0]);
    }
    struct Stat { uint64_t run = 0, disc = 0, nontriv = 0, choices = 0; bool stopped = false; double secs = 0;
                  std::set<uint64_t> hashes; std::map<std::string, uint64_t> labels; std::vector<uint64_t> samples; };
    std::vector<Stat> st(ts.size());
    std::map<size_t, uint64_t> failures;  // target -> least failing case index
    auto add_failure = [&](size_t k, uint64_t i) {
        auto it = failures.find(k);
        if (it == failures.end() || i < it->second) failures[k] = i;
    };
    bool lost = false;
    for (int j = 0; j < jobs; ++j) {
        std::string buf;
        char tmp[65536];
        ssize_t n;
        while ((n = read(fds[j], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
        close(fds[j]);
        int status = 0;
        waitpid(pids[j], &status, 0);
        std::istringstream in(buf);
        std::string line;
        bool ended = false;
        while (std::getline(in, line)) {
            std::istringstream s(line);
            std::string kind;
            size_t k;
            s >> kind;
            if (kind == "E") { ended = true; continue; }
            s >> k;
            if (kind == "F") { uint64_t i; s >> i; add_failure(k, i); }
            else if (kind == "T") {
                uint64_t a, b, c, d, h, v; int stop; double secs;
                s >> a >> b >> c >> d >> stop >> secs >> h;
                st[k].run += a; st[k].disc += b; st[k].nontriv += c; st[k].choices += d; st[k].stopped |= stop;
                st[k].secs += secs;
                while (h-- && s >> v) st[k].hashes.insert(v);
            } else if (kind == "L") { uint64_t c; std::string l; s >> c; std::getline(s, l); st[k].labels[l.substr(1)] += c; }
            else if (kind == "S") { uint64_t i; s >> i; if (st[k].samples.size() < 3) st[k].samples.push_back(i); }
        }
        if (!ended) {  // the worker died: its current case is the suspect
            if (slots[j].active) add_failure(slots[j].target, slots[j].index);
            else lost = true;
        }
    }

    int rc = 0;
    mkdir(replay_dir.c_str(), 0777);
    for (auto & f : failures) {
        const Target & t = ts[f.first];
        uint64_t i = f.second, n = count[f.first];
        rc |= report(t, [&]() { return Src(case_seed(seed, t.name, i), case_size(i, n)); },
                     shrink_seconds, replay_dir + "/" + tag + t.name + ".replay");
    }
    if (lost) printf("NOTE a worker died outside any case\n");

    if (!evidence.empty()) {
        std::ofstream e(evidence);
        e << "{\"targets\": [";
        for (size_t k = 0; k < ts.size(); ++k) {
            if (k) e << ",";
            e << "\n {\"name\": " << jstr(ts[k].name) << ", \"rule\": " << jstr(ts[k].rule) << ", \"evaluations\": " << st[k].run
              << ", \"discarded\": " << st[k].disc << ", \"nontrivial\": " << st[k].nontriv
              << ", \"distinct_nontrivial\": " << st[k].hashes.size() << ", \"choices\": " << st[k].choices
              << ", \"cpu_s\": " << st[k].secs << ", \"stopped_early\": " << (st[k].stopped ? "true" : "false") << ", \"labels\": {";
            bool first = true;
            for (auto & l : st[k].labels) { e << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
            e << "}, \"samples\": [";
            first = true;
            std::sort(st[k].samples.begin(), st[k].samples.end());
            for (uint64_t i : st[k].samples) {
                if (failures.count(k)) break;
                Src src(case_seed(seed, ts[k].name, i), case_size(i, count[k]));
                src.verbose = true;
                run_one(ts[k], src);
                std::string s = src.log.str();
                if (s.size() > 700) s = s.substr(0, 700) + " ...";
                e << (first ? "" : ", ") << jstr(s);
                first = false;
                if (ts.size() > 6) break;
            }
            e << "]}";
        }
        e << "\n], \"wall_s\": " << now() - start << "}\n";
    }
    return rc;
}
#endif
