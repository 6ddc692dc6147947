#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int);
}

namespace pbt {

bool trap_exit = false;

static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
Src::Src(uint64_t seed)
{
    s[0] = splitmix(seed);
    s[1] = splitmix(seed);
    ch.reserve(4096);
}
Src::Src(const std::vector<uint64_t> &c) : ch(c), replay(true)
{
    s[0] = s[1] = 1;
}
uint64_t Src::next()
{
    const uint64_t s0 = s[0];
    uint64_t s1 = s[1];
    const uint64_t r = s0 + s1;
    s1 ^= s0;
    s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    s[1] = (s1 << 37) | (s1 >> 27);
    return r;
}
uint64_t Src::below(uint64_t n)
{
    if (n == 0) n = 1;
    if (replay) {
        uint64_t v = pos < ch.size() ? ch[pos] : 0;
        ++pos;
        return v < n ? v : v % n;
    }
    uint64_t v = n == 1 ? 0 : next() % n;
    ch.push_back(v);
    ++pos;
    return v;
}

void fail(const std::string &kind, const std::string &msg) { throw Fail{kind, msg}; }
std::string fmt(const char *f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool close(double a, double b, double rel, double abs)
{
    if (same(a, b)) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

bool lib_exits(const std::function<void()> &f, int *code)
{
    const bool old = trap_exit;
    trap_exit = true;
    try {
        f();
    } catch (const LibExit &e) {
        trap_exit = old;
        if (code) *code = e.code;
        return true;
    } catch (...) {
        trap_exit = old;
        throw;
    }
    trap_exit = old;
    return false;
}

static std::string scratch_dir;
static pid_t scratch_pid = 0;
std::string scratch_base = "/tmp";
std::string scratch()
{
    if (scratch_pid != getpid()) {
        scratch_pid = getpid();
        scratch_dir = scratch_base + "/s" + std::to_string(getpid());
        mkdir(scratch_dir.c_str(), 0700);
    }
    return scratch_dir;
}
std::string slurp(const std::string &path)
{
    std::ifstream in(path, std::ios::binary);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}

// ---------------------------------------------------------------- shared mem
enum { MAXCNT = 64, MAXCH = 1 << 16, MAXMSG = 8192 };
struct Shared {
    volatile long cur; // index of the case being executed
    volatile long done; // cases finished
    volatile long nontriv;
    volatile long discarded;
    volatile int state; // 0 running, 1 fail recorded, 2 finished, 3 hang
    char kind[256];
    char msg[MAXMSG];
    char desc[MAXMSG];
    long nch;
    uint64_t ch[MAXCH];
    int ncnt;
    char cname[MAXCNT][64];
    long cval[MAXCNT];
    long nhash;
};
static Shared *sh = nullptr;
static uint64_t *hashes = nullptr;
static long hash_cap = 0;
static bool counting = true;

void Case::count(const char *name, long n)
{
    if (!counting) return;
    for (int i = 0; i < sh->ncnt; ++i)
        if (!strncmp(sh->cname[i], name, 63)) {
            sh->cval[i] += n;
            return;
        }
    if (sh->ncnt < MAXCNT) {
        strncpy(sh->cname[sh->ncnt], name, 63);
        sh->cval[sh->ncnt] = n;
        ++sh->ncnt;
    }
}

static uint64_t hash_choices(const std::vector<uint64_t> &c, size_t n)
{
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n && i < c.size(); ++i) {
        h ^= c[i] + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 1099511628211ULL;
    }
    return h;
}

static void on_prof(int)
{
    sh->state = 3;
    _exit(43);
}
static void arm(double s)
{
    struct itimerval it;
    it.it_interval.tv_sec = 0;
    it.it_interval.tv_usec = 0;
    it.it_value.tv_sec = (long) s;
    it.it_value.tv_usec = (long) ((s - (long) s) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

// Outcome of running one case in this process.
struct Outcome {
    int code = 0; // 0 ok, 1 fail, 2 discard
    std::string kind, msg, desc;
    bool nontrivial = false;
};
static Case *cur_case = nullptr;
static Outcome run_here(Src &src)
{
    Outcome o;
    Case c;
    cur_case = &c;
    trap_exit = false;
    try {
        property.run(src, c);
        o.nontrivial = c.nontrivial;
    } catch (const Fail &f) {
        o.code = 1;
        o.kind = f.kind;
        o.msg = f.msg;
    } catch (const Discard &) {
        o.code = 2;
    } catch (const LibExit &e) {
        o.code = 1;
        o.kind = "exit";
        o.msg = "library called exit(" + std::to_string(e.code) + ") on a valid case";
    } catch (const std::exception &e) {
        o.code = 1;
        o.kind = "exception";
        o.msg = e.what();
    }
    trap_exit = false;
    cur_case = nullptr;
    o.desc = c.desc.str();
    return o;
}
static void put(char *dst, size_t n, const std::string &s)
{
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}
static std::string errfile;
static void child_setup(bool quiet)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open("/dev/null", O_WRONLY);
    if (quiet) dup2(fd, 1);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(e, 2);
    signal(SIGPROF, on_prof);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
static void cleanup_scratch(pid_t pid)
{
    std::string cmd = scratch_base + "/s" + std::to_string(pid);
    if (access(cmd.c_str(), F_OK) == 0) {
        std::string c = "rm -rf '" + cmd + "'";
        if (system(c.c_str())) {}
    }
}
// First lines of a sanitizer report / stderr.
static std::string err_tail()
{
    std::string s = slurp(errfile);
    size_t p = s.find("ERROR: ");
    if (p == std::string::npos) p = s.find("runtime error");
    if (p == std::string::npos) p = 0;
    else if (p > 60) p -= 0;
    std::string t = s.substr(p, 1500);
    return t;
}
static std::string crash_kind(int status)
{
    std::string t = err_tail();
    size_t p = t.find("AddressSanitizer: ");
    if (p != std::string::npos) {
        size_t q = t.find_first_of(" \n", p + 18);
        return "crash:asan:" + t.substr(p + 18, q - p - 18);
    }
    if (t.find("runtime error") != std::string::npos) return "crash:ubsan";
    if (t.find("library called exit()") != std::string::npos) return "crash:exit";
    if (WIFSIGNALED(status)) return "crash:signal" + std::to_string(WTERMSIG(status));
    return "crash:exit" + std::to_string(WEXITSTATUS(status));
}
// Run a choice vector in a forked child.
static Outcome run_forked(const std::vector<uint64_t> &ch, size_t *used = nullptr,
                          bool quiet = true)
{
    sh->state = 0;
    sh->kind[0] = sh->msg[0] = sh->desc[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        counting = false;
        child_setup(quiet);
        arm(property.case_cpu_s);
        // keep the description of a case that crashes
        signal(SIGABRT, [](int) {
            signal(SIGABRT, SIG_DFL);
            signal(SIGALRM, SIG_DFL);
            alarm(3);
            if (cur_case) put(sh->desc, sizeof sh->desc, cur_case->desc.str());
            abort();
        });
        Src src(ch);
        Outcome o = run_here(src);
        put(sh->kind, sizeof sh->kind, o.kind);
        put(sh->msg, sizeof sh->msg, o.msg);
        put(sh->desc, sizeof sh->desc, o.desc);
        sh->nch = (long) src.pos;
        sh->state = 2;
        _exit(o.code);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    cleanup_scratch(pid);
    Outcome o;
    o.desc = sh->desc;
    if (sh->state == 3) {
        o.code = 1;
        o.kind = "hang";
        o.msg = "case exceeded its CPU time limit";
    } else if (sh->state == 2 && WIFEXITED(status)) {
        o.code = WEXITSTATUS(status);
        o.kind = sh->kind;
        o.msg = sh->msg;
        if (used) *used = (size_t) sh->nch;
    } else {
        o.code = 1;
        o.kind = crash_kind(status);
        o.msg = err_tail();
        if (used) *used = ch.size();
    }
    return o;
}

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::string &kind,
                                    double limit_s, Outcome &last)
{
    const double t0 = now();
    auto expired = [&] { return now() - t0 > limit_s; };
    auto attempt = [&](const std::vector<uint64_t> &c) {
        size_t used = c.size();
        Outcome o = run_forked(c, &used);
        if (o.code == 1 && o.kind == kind) {
            best = c;
            if (used < best.size()) best.resize(used);
            last = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && !expired()) {
        progress = false;
        // trailing truncation
        for (size_t keep = best.size() / 2; keep < best.size() && !expired();) {
            std::vector<uint64_t> c(best.begin(), best.begin() + (long) keep);
            if (attempt(c)) {
                progress = true;
                keep = best.size() / 2;
                if (best.size() <= 1) break;
            } else {
                size_t gap = best.size() - keep;
                if (gap <= 1) break;
                keep = best.size() - gap / 2;
            }
        }
        // delete chunks
        for (size_t k : {64, 32, 16, 8, 4, 2, 1}) {
            for (size_t i = 0; i + k <= best.size() && !expired();) {
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + (long) i, c.begin() + (long) (i + k));
                if (attempt(c)) progress = true;
                else i += k;
            }
        }
        // zero chunks
        for (size_t k : {16, 4, 1}) {
            for (size_t i = 0; i < best.size() && !expired(); i += k) {
                std::vector<uint64_t> c = best;
                bool any = false;
                for (size_t j = i; j < std::min(i + k, best.size()); ++j) {
                    any |= c[j] != 0;
                    c[j] = 0;
                }
                if (any && attempt(c)) progress = true;
            }
        }
        // lower single values (binary search towards zero)
        for (size_t i = 0; i < best.size() && !expired(); ++i) {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && !expired()) {
                std::vector<uint64_t> c = best;
                uint64_t mid = lo + (best[i] - lo) / 2;
                c[i] = mid;
                if (attempt(c)) progress = true;
                else lo = mid + 1;
            }
        }
    }
    return best;
}

static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

static void write_replay(const std::string &path, const std::vector<uint64_t> &c, const Outcome &o,
                         const std::string &extra)
{
    std::ofstream f(path);
    f << "{\"property\": \"" << property.id << "\", " << extra << "\"kind\": \"" << esc(o.kind)
      << "\", \"message\": \"" << esc(o.msg) << "\",\n \"case\": \"" << esc(o.desc)
      << "\",\n \"choices\": [";
    for (size_t i = 0; i < c.size(); ++i) f << (i ? "," : "") << c[i];
    f << "]}\n";
}

static uint64_t case_seed(uint64_t seed, long idx)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL + (uint64_t) idx * 0xd1342543de82ef95ULL + 12345;
    return splitmix(x);
}

} // namespace pbt

using namespace pbt;

extern "C" void __wrap_exit(int code)
{
    if (trap_exit) throw LibExit{code};
    // an exit() nobody expects: report it as such
    const char m[] = "ERROR: library called exit()\n";
    if (write(2, m, sizeof m - 1)) {}
    abort();
}

// usage: harness run SEED WORKER NWORKERS NCASES MAXSEC OUTPREFIX VARIANT
//        harness replay FILE
//        harness info
int main(int argc, char **argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (const char *b = getenv("PBT_SCRATCH")) scratch_base = b;
    errfile = scratch_base + "/err" + std::to_string(getpid());
    if (mode == "info") {
        printf("{\"id\": \"%s\", \"rule\": \"%s\", \"quick\": %ld, \"thorough\": %ld}\n",
               property.id, esc(property.rule).c_str(), property.quick_cases,
               property.thorough_cases);
        return 0;
    }
    if (mode == "replay" && argc > 2) {
        std::string s = slurp(argv[2]);
        size_t p = s.rfind("\"choices\": [");
        std::vector<uint64_t> c;
        if (p != std::string::npos) {
            std::istringstream in(s.substr(p + 12));
            uint64_t v;
            char d;
            while (in >> v) {
                c.push_back(v);
                in >> d;
                if (d != ',') break;
            }
        }
        Outcome o = run_forked(c, nullptr, getenv("PBT_VERBOSE") == nullptr);
        printf("code=%d kind=%s\nmsg: %s\ncase: %s\n", o.code, o.kind.c_str(), o.msg.c_str(),
               o.desc.c_str());
        unlink(errfile.c_str());
        return o.code == 1 ? 1 : 0;
    }
    if (mode != "run" || argc < 9) return 2;
    const uint64_t seed = strtoull(argv[2], nullptr, 10);
    const long worker = atol(argv[3]), nworkers = atol(argv[4]), ncases = atol(argv[5]);
    const double maxsec = atof(argv[6]);
    const std::string out = argv[7];
    const std::string variant = argv[8];
    const double t0 = now();
    hash_cap = ncases / nworkers + 16;
    hashes = (uint64_t *) mmap(nullptr, (size_t) hash_cap * 8, PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long start = worker; // this worker's case indices: worker, worker+nworkers...
    int unreproduced = 0;
    std::string samples_path = out + ".samples";
    std::ofstream(samples_path).close();
    bool violated = false;
    while (start < ncases) {
        sh->state = 0;
        sh->cur = start;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(true);
            long nsample = 0;
            for (long i = start; i < ncases; i += nworkers) {
                if (now() - t0 > maxsec) break;
                sh->cur = i;
                arm(property.case_cpu_s);
                Src src(case_seed(seed, i));
                Outcome o = run_here(src);
                arm(0);
                if (o.code == 1) {
                    put(sh->kind, sizeof sh->kind, o.kind);
                    put(sh->msg, sizeof sh->msg, o.msg);
                    put(sh->desc, sizeof sh->desc, o.desc);
                    sh->nch = (long) std::min<size_t>(src.ch.size(), MAXCH);
                    memcpy(sh->ch, src.ch.data(), (size_t) sh->nch * 8);
                    sh->state = 1;
                    _exit(1);
                }
                ++sh->done;
                if (o.code == 2) ++sh->discarded;
                else if (o.nontrivial) {
                    ++sh->nontriv;
                    if (sh->nhash < hash_cap)
                        hashes[sh->nhash++] = hash_choices(src.ch, src.pos);
                    if (nsample < 3 && !o.desc.empty() && sh->nontriv % 7 == 1) {
                        ++nsample;
                        std::ofstream f(samples_path, std::ios::app);
                        f << "{\"case\": " << i << ", \"desc\": \"" << esc(o.desc.substr(0, 600))
                          << "\"}\n";
                    }
                }
            }
            sh->state = 2;
            _exit(0);
        }
        int status = 0;
        double last_progress = now();
        long last_cur = -1;
        bool wall_hang = false;
        for (;;) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            usleep(2000);
            if (sh->cur != last_cur) {
                last_cur = sh->cur;
                last_progress = now();
            } else if (now() - last_progress > property.case_cpu_s * 8 + 120) {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                wall_hang = true;
                break;
            }
        }
        cleanup_scratch(pid);
        if (sh->state == 2) break;
        // a failing or crashing case: rebuild its choices
        const long idx = sh->cur;
        std::string kind;
        std::vector<uint64_t> ch;
        Outcome first;
        first.code = 1;
        if (sh->state == 1) {
            first.kind = sh->kind;
            first.msg = sh->msg;
            first.desc = sh->desc;
            ch.assign(sh->ch, sh->ch + sh->nch);
        } else {
            first.kind = wall_hang || sh->state == 3 ? "hang" : crash_kind(status);
            first.msg = wall_hang ? "no progress (deadlock)" : err_tail();
            // crashed: regenerate the choice vector in a child that streams it out
            sh->state = 0;
            sh->nch = 0;
            pid_t p2 = fork();
            if (p2 == 0) {
                counting = false;
                child_setup(true);
                arm(property.case_cpu_s);
                Src src(case_seed(seed, idx));
                // make the recorder's storage visible after a crash
                src.ch.reserve(MAXCH);
                signal(SIGPROF, SIG_DFL);
                static Src *gs;
                gs = &src;
                auto dump = [](int) {
                    sh->nch = (long) std::min<size_t>(gs->ch.size(), MAXCH);
                    memcpy(sh->ch, gs->ch.data(), (size_t) sh->nch * 8);
                    _exit(9);
                };
                signal(SIGABRT, dump);
                signal(SIGSEGV, dump);
                signal(SIGBUS, dump);
                signal(SIGFPE, dump);
                signal(SIGPROF, dump);
                signal(SIGALRM, dump);
                alarm((unsigned) (property.case_cpu_s * 8 + 60));
                run_here(src);
                dump(0);
            }
            waitpid(p2, &status, 0);
            cleanup_scratch(p2);
            ch.assign(sh->ch, sh->ch + sh->nch);
        }
        int rep = 0, tries = 0;
        Outcome o;
        const bool hang = first.kind == "hang"; // costly to repeat
        for (; tries < (hang ? 2 : 3); ++tries) {
            Outcome r = run_forked(ch);
            if (r.code == 1) { ++rep; o = r; }
        }
        if (!hang && rep < 3)
            for (; tries < 40 && rep < 2; ++tries) {
                Outcome r = run_forked(ch);
                if (r.code == 1) { ++rep; o = r; }
            }
        if (rep >= 2) {
            Outcome last = o;
            std::vector<uint64_t> best = ch;
            if (rep == tries && !hang) {
                const char *ss = getenv("PBT_SHRINK_S");
                best = shrink(ch, o.kind, ss ? atof(ss) : 15, last);
            }
            write_replay(out + ".replay", best, last,
                         "\"variant\": \"" + variant + "\", \"omp\": \"" +
                             (getenv("OMP_NUM_THREADS") ? getenv("OMP_NUM_THREADS") : "") +
                             "\", \"seed\": " + std::to_string(seed) +
                             ", \"case_index\": " + std::to_string(idx) +
                             ", \"reproduced\": \"" + std::to_string(rep) + "/" +
                             std::to_string(tries) + "\", ");
            violated = true;
            break;
        }
        ++unreproduced;
        fprintf(stderr, "worker %ld: case %ld failed once (%s: %s) but did not reproduce\n", worker,
                idx, first.kind.c_str(), first.msg.substr(0, 300).c_str());
        if (unreproduced > 5) break;
        start = idx + nworkers;
    }
    std::ofstream st(out + ".stats");
    st << "{\"done\": " << sh->done << ", \"nontrivial\": " << sh->nontriv
       << ", \"discarded\": " << sh->discarded << ", \"unreproduced\": " << unreproduced
       << ", \"violated\": " << (violated ? 1 : 0) << ", \"wall\": " << now() - t0
       << ", \"counters\": {";
    for (int i = 0; i < sh->ncnt; ++i)
        st << (i ? ", " : "") << "\"" << esc(sh->cname[i]) << "\": " << sh->cval[i];
    st << "}}\n";
    std::ofstream hs(out + ".hashes", std::ios::binary);
    hs.write((const char *) hashes, (long) (sh->nhash * 8));
    hs.close();
    unlink(errfile.c_str());
    return violated ? 1 : 0;
}
