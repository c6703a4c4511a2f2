#include "engine.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Choices Choices::random(uint64_t seed)
{
    Choices c;
    c._mode = Mode::Random;
    for (auto& s : c._s) s = splitmix(seed);
    return c;
}
Choices Choices::replay(std::vector<uint64_t> v)
{
    Choices c;
    c._mode = Mode::Replay;
    c._in   = std::move(v);
    return c;
}
Choices Choices::bytes(const uint8_t* p, std::size_t n)
{
    Choices c;
    c._mode = Mode::Bytes;
    c._p    = p;
    c._n    = n;
    return c;
}

uint64_t Choices::draw(uint64_t bound)
{
    if (_log.size() > 400000) throw Discard();
    uint64_t v = 0;
    if (bound == 1) return 0; // no choice
    {
        switch (_mode)
        {
        case Mode::Random:
        {
            // xoshiro256**
            const uint64_t r = rotl(_s[1] * 5, 7) * 9, t = _s[1] << 17;
            _s[2] ^= _s[0];
            _s[3] ^= _s[1];
            _s[1] ^= _s[2];
            _s[0] ^= _s[3];
            _s[2] ^= t;
            _s[3] = rotl(_s[3], 45);
            v     = bound ? uint64_t((__uint128_t(r) * bound) >> 64) : r;
            break;
        }
        case Mode::Replay:
            v = _pos < _in.size() ? _in[_pos] : 0;
            _pos++;
            if (bound && v >= bound) v = bound - 1;
            break;
        case Mode::Bytes:
        {
            int nb = 8;
            if (bound)
            {
                nb         = 0;
                uint64_t m = bound - 1;
                while (m)
                {
                    nb++;
                    m >>= 8;
                }
            }
            for (int i = 0; i < nb; i++)
            {
                uint64_t b = _pos < _n ? _p[_pos] : 0;
                _pos++;
                v |= b << (8 * i);
            }
            if (bound) v %= bound;
            break;
        }
        }
    }
    _log.push_back(v);
    if (mirror)
    {
        mirror[_log.size()] = v;
        mirror[0]           = _log.size();
    }
    return v;
}
volatile uint64_t* Choices::mirror = nullptr;

void Ctx::flush_text()
{
    if (text_file.empty()) return;
    std::ofstream f(text_file);
    f << text.str();
}

std::size_t Choices::weighted(std::initializer_list<unsigned> w)
{
    uint64_t total = 0;
    for (auto x : w) total += x;
    uint64_t v    = draw(total);
    std::size_t i = 0;
    for (auto x : w)
    {
        if (v < x) return i;
        v -= x;
        i++;
    }
    return i - 1;
}

double Choices::moderate(double m)
{
    switch (draw(4))
    {
    case 0:
    {
        const double x = double(range(0, 4)); // one draw per statement: the order of evaluation must not depend on the compiler
        return x * (flip() ? -1 : 1);
    }
    case 1: return double(range(-int64_t(m * 8), int64_t(m * 8))) / 8;
    default: return uniform(-m, m);
    }
}

std::string Choices::name(int max_len)
{
    static const char alpha[] = "ab1_.A/ -";
    std::string r;
    int n = size(0, 2, max_len);
    for (int i = 0; i < n; i++) r += alpha[draw(sizeof(alpha) - 1)];
    return r;
}

std::string Choices::bytes_string(int max_len)
{
    std::string r;
    int n = size(0, 6, max_len);
    for (int i = 0; i < n; i++) r += char(flip() ? draw(256) : uint64_t("azAZ09_@[`{/:.-"[draw(15)]));
    return r;
}

std::vector<int> Choices::permutation(int n)
{
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + int(draw(uint64_t(n - i)))]);
    return p;
}

int Choices::size(int lo, int typical, int max)
{
    switch (draw(8))
    {
    case 7: return int(range(lo, max));
    case 6: return int(range(lo, std::min(max, 3 * typical)));
    default: return int(range(lo, std::min(max, typical)));
    }
}

// ------------------------------------------------------------------------------------------------------------------

using Clock = std::chrono::steady_clock;
static double now()
{
    return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

enum Status : uint64_t
{
    Pass    = 0,
    Fail    = 1,
    Crash   = 2,
    Hang    = 3,
    Skipped = 4,
    Killed  = 5
};
static const char* status_name[] = {"pass", "violated", "crashed", "did not terminate", "discarded", "killed"};

static unsigned g_cpu_limit = 60;

static void arm_cpu_timer(unsigned sec)
{
    itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int) { _exit(78); }

// runs a single case in this process
static Status run_one(Choices& c, Ctx& ctx, std::string& msg)
{
    arm_cpu_timer(g_cpu_limit);
    Status st = Pass;
    try
    {
        property_def.run(c, ctx);
    }
    catch (const Failure& e)
    {
        st  = Fail;
        msg = e.what();
    }
    catch (const Discard&)
    {
        st = Skipped;
    }
    catch (const std::exception& e)
    {
        st  = Fail;
        msg = std::string("unexpected exception: ") + e.what();
    }
    catch (...)
    {
        st  = Fail;
        msg = "unexpected exception of unknown type";
    }
    arm_cpu_timer(0);
    return st;
}

static uint64_t case_seed(uint64_t seed, uint64_t index)
{
    uint64_t x = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    uint64_t a = splitmix(x);
    x          = a ^ (index * 0xD1342543DE82EF95ULL + 99);
    uint64_t b = splitmix(x);
    for (const char* p = property_def.id; *p; p++) b = b * 131 + uint64_t(*p);
    return b;
}

struct Result
{
    Status status{Pass};
    std::string msg;
    std::vector<uint64_t> log;
    std::string text;
    std::string err; // stderr of the child
};

static std::string read_file(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

static std::string g_tmp;
static uint64_t* g_mirror = nullptr;

// executes a function in a forked child, which produces a Result through a pipe
static Result in_child(const std::function<void(Result&)>& f)
{
    Result r;
    int fd[2];
    if (pipe(fd)) abort();
    if (!g_mirror)
        g_mirror = static_cast<uint64_t*>(
            mmap(nullptr, 8 * 400010, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_mirror[0] = 0;
    if (FILE* tf = fopen((g_tmp + "/child.text").c_str(), "w")) fclose(tf);
    std::string errf = g_tmp + "/child.err";
    pid_t pid        = fork();
    if (pid == 0)
    {
        close(fd[0]);
        int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(e, 2);
        signal(SIGPROF, on_prof);
        Choices::mirror = g_mirror;
        Result cr;
        f(cr);
        std::string out;
        auto put = [&](uint64_t v) { out.append(reinterpret_cast<char*>(&v), 8); };
        put(cr.status);
        put(cr.msg.size());
        out += cr.msg;
        put(cr.text.size());
        out += cr.text;
        put(cr.log.size());
        for (auto v : cr.log) put(v);
        std::size_t o = 0;
        while (o < out.size())
        {
            auto n = write(fd[1], out.data() + o, out.size() - o);
            if (n <= 0) break;
            o += std::size_t(n);
        }
        close(fd[1]);
        _exit(0);
    }
    close(fd[1]);
    std::string in;
    char buf[65536];
    for (;;)
    {
        auto n = read(fd[0], buf, sizeof buf);
        if (n <= 0) break;
        in.append(buf, std::size_t(n));
    }
    close(fd[0]);
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && in.size() >= 24)
    {
        std::size_t o = 0;
        auto get      = [&]() { uint64_t v; std::memcpy(&v, in.data() + o, 8); o += 8; return v; };
        r.status      = Status(get());
        auto n        = get();
        r.msg         = in.substr(o, n);
        o += n;
        n      = get();
        r.text = in.substr(o, n);
        o += n;
        n = get();
        for (uint64_t i = 0; i < n; i++) r.log.push_back(get());
        return r;
    }
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 78)
    {
        r.status = Hang;
        r.msg    = "the case used more than " + std::to_string(g_cpu_limit) + " s of CPU time";
    }
    else if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL)
    {
        r.status = Killed;
        r.msg    = "killed";
    }
    else
    {
        r.status = Crash;
        r.msg    = "process terminated abnormally (" +
                (WIFSIGNALED(ws) ? "signal " + std::to_string(WTERMSIG(ws))
                                    : "exit status " + std::to_string(WEXITSTATUS(ws))) + ")";
        r.err = read_file(errf);
        if (r.err.size() > 6000) r.err.resize(6000);
    }
    r.text = read_file(g_tmp + "/child.text");
    r.log.assign(g_mirror + 1, g_mirror + 1 + g_mirror[0]);
    return r;
}

static Result exec_choices(const std::vector<uint64_t>& v, bool verbose)
{
    auto r = in_child(
        [&](Result& cr)
        {
            auto c = Choices::replay(v);
            Ctx ctx;
            ctx.verbose = verbose;
            if (verbose) ctx.text_file = g_tmp + "/child.text";
            cr.status = run_one(c, ctx, cr.msg);
            cr.log      = c.log();
            cr.text     = ctx.text.str();
        });
    if (r.log.empty()) r.log = v;
    return r;
}

static Result exec_seed(uint64_t seed, uint64_t index, bool verbose)
{
    return in_child(
        [&](Result& cr)
        {
            auto c = Choices::random(case_seed(seed, index));
            Ctx ctx;
            ctx.verbose = verbose;
            if (verbose) ctx.text_file = g_tmp + "/child.text";
            cr.status = run_one(c, ctx, cr.msg);
            cr.log      = c.log();
            cr.text     = ctx.text.str();
        });
}

static bool is_bad(Status s) { return s == Fail || s == Crash || s == Hang; }

static Result shrink(Result best, double budget, uint64_t& execs)
{
    const double t_end = now() + budget;
    auto out_of_time   = [&] { return now() > t_end || execs > 6000; };
    auto less          = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
    { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    auto attempt = [&](const std::vector<uint64_t>& v) -> bool
    {
        execs++;
        Result r = exec_choices(v, false);
        if (r.status != best.status) return false;
        auto w = r.log; // normalised
        while (!w.empty() && w.back() == 0) w.pop_back();
        if (!less(w, best.log)) return false;
        std::string old = best.text;
        best            = r;
        best.log        = w;
        return true;
    };
    bool progress = true;
    while (progress && !out_of_time())
    {
        progress = false;
        // delete blocks
        for (std::size_t k = std::max<std::size_t>(best.log.size() / 2, 1); k >= 1 && !out_of_time(); k /= 2)
        {
            for (std::size_t i = 0; i + k <= best.log.size() && !out_of_time();)
            {
                auto v = best.log;
                v.erase(v.begin() + long(i), v.begin() + long(i + k));
                if (attempt(v))
                    progress = true;
                else
                    i += k;
            }
        }
        // zero blocks
        for (std::size_t k = std::max<std::size_t>(best.log.size() / 4, 1); k >= 1 && !out_of_time(); k /= 2)
        {
            for (std::size_t i = 0; i + k <= best.log.size() && !out_of_time(); i += k)
            {
                auto v   = best.log;
                bool any = false;
                for (std::size_t j = i; j < i + k; j++)
                {
                    any |= v[j] != 0;
                    v[j] = 0;
                }
                if (any && attempt(v)) progress = true;
            }
        }
        // minimise single values; decrement a count and delete something after it
        for (std::size_t i = 0; i < best.log.size() && !out_of_time(); i++)
        {
            uint64_t lo = 0;
            while (i < best.log.size() && best.log[i] > lo && !out_of_time())
            {
                uint64_t cur = best.log[i];
                auto v       = best.log;
                v[i]         = lo + (cur - lo) / 2;
                if (v[i] == cur) break;
                if (attempt(v))
                    progress = true;
                else
                {
                    if (lo == v[i]) break;
                    lo = v[i];
                    if (cur - lo <= 1) break;
                }
                if (cur > (uint64_t(1) << 20)) // long mantissas: try rounder values
                {
                    auto w = best.log;
                    if (i < w.size())
                    {
                        w[i] = cur & ~((uint64_t(1) << 40) - 1);
                        if (w[i] != cur && attempt(w)) progress = true;
                    }
                    if (i < best.log.size() && best.log[i] > (uint64_t(1) << 20)) break;
                }
            }
            for (std::size_t k = 1; k <= 6 && i < best.log.size() && best.log[i] > 0 && !out_of_time(); k++)
            {
                auto v = best.log;
                v[i]--;
                if (i + 1 + k > v.size()) break;
                v.erase(v.begin() + long(i) + 1, v.begin() + long(i + 1 + k));
                if (attempt(v))
                {
                    progress = true;
                    k        = 0;
                }
            }
        }
    }
    return best;
}

static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += char(ch);
        }
        else if (ch == '\n')
            o += "\\n";
        else if (ch == '\t')
            o += "\\t";
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += char(ch);
    }
    return o + "\"";
}

struct WorkerShared
{
    std::atomic<uint64_t> index;
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> stop;
};

static std::string write_replay(const std::string& dir, const Result& r, const std::string& config, uint64_t seed,
                                const std::string& history)
{
    std::string path = dir + "/" + property_def.id + "-" + config + ".replay";
    std::ofstream f(path);
    f << "pooya-replay 1\nproperty " << property_def.id << "\nconfig " << config << "\nseed " << seed << "\n";
    if (!history.empty()) f << "history " << history << "\n";
    f << "choices " << r.log.size() << "\n";
    for (auto v : r.log) f << v << "\n";
    f << "outcome " << status_name[r.status] << "\n---- message ----\n" << r.msg << "\n---- case ----\n" << r.text;
    if (!r.err.empty()) f << "\n---- stderr ----\n" << r.err;
    f << "\n";
    return path;
}

static int replay_file(const std::string& file)
{
    std::ifstream f(file);
    std::string w, history;
    std::vector<uint64_t> v;
    uint64_t seed = 0, hw = 0, hn = 0, hi = 0;
    bool hist = false;
    while (f >> w)
    {
        if (w == "choices")
        {
            std::size_t n;
            f >> n;
            v.resize(n);
            for (auto& x : v) f >> x;
            break;
        }
        else if (w == "seed")
            f >> seed;
        else if (w == "history")
        {
            hist = true;
            f >> hw >> hn >> hi; // worker, workers, index
        }
    }
    Result r;
    if (hist)
        r = in_child(
            [&](Result& cr)
            {
                for (uint64_t i = hw; i <= hi; i += hn)
                {
                    auto c = Choices::random(case_seed(seed, i));
                    Ctx ctx;
                    ctx.verbose = i == hi;
                    cr.status   = run_one(c, ctx, cr.msg);
                    cr.text     = ctx.text.str();
                    if (is_bad(cr.status)) return;
                }
            });
    else
        r = exec_choices(v, true);
    std::cerr << "outcome: " << status_name[r.status] << "\n" << r.msg << "\n---- case ----\n" << r.text << r.err << "\n";
    return is_bad(r.status) ? 1 : 0;
}

int engine_main(int argc, char** argv)
{
    // a fixed address-space layout makes a run a pure function of code and seed
    if (!getenv("PBT_NOASLR_DONE"))
    {
        setenv("PBT_NOASLR_DONE", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(unsigned(p) | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) { return a.count(k) ? std::stoull(a[k]) : d; };

    const uint64_t seed = num("--seed", 1), N = num("--cases", 1000), first = num("--first", 0);
    const uint64_t W = num("--workers", 8);
    const double wall = double(num("--wall", 120));
    const double shrink_budget = double(num("--shrink", 40));
    g_cpu_limit = unsigned(num("--cpu-limit", 60));
    const std::string out = a.count("--out") ? a["--out"] : "", config = a.count("--config") ? a["--config"] : "dbg";
    const std::string rdir = a.count("--replay-dir") ? a["--replay-dir"] : "/tmp";
    const std::string digest_out = a.count("--digest-out") ? a["--digest-out"] : "";

    char tmpl[] = "/tmp/pbt.XXXXXX";
    g_tmp       = mkdtemp(tmpl);
    setenv("PBT_TMP", g_tmp.c_str(), 1);
    std::cout.rdbuf(nullptr); // the library prints warnings
    auto cleanup = [&]
    {
        std::string cmd = "rm -rf -- " + g_tmp;
        if (g_tmp.rfind("/tmp/pbt.", 0) == 0 && system(cmd.c_str())) {}
    };

    if (a.count("--replay"))
    {
        int rc = replay_file(a["--replay"]);
        cleanup();
        return rc;
    }
    if (a.count("--show"))
    {
        auto r = exec_seed(seed, num("--show", 0), true);
        std::cerr << status_name[r.status] << " " << r.msg << "\n" << r.text << "\n" << r.err;
        cleanup();
        return is_bad(r.status);
    }

    const double t0 = now();
    auto* sh        = static_cast<WorkerShared*>(
        mmap(nullptr, sizeof(WorkerShared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(W);
    for (uint64_t w = 0; w < W; w++)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            signal(SIGPROF, on_prof);
            std::string base = g_tmp + "/w" + std::to_string(w);
            int e            = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(e, 2);
            setenv("PBT_WORKER_TMP", base.c_str(), 1);
            std::unordered_set<uint64_t> hashes;
            std::map<std::string, uint64_t> labels;
            uint64_t discarded = 0, nontrivial = 0, evals = 0;
            std::vector<uint64_t> sample_idx;
            std::ofstream dig;
            if (!digest_out.empty()) dig.open(base + ".dig");
            int rc = 0;
            for (uint64_t i = w; i < N; i += W)
            {
                if (sh[w].stop.load(std::memory_order_relaxed) || now() - t0 > wall) break;
                sh[w].index.store(first + i);
                auto c = Choices::random(case_seed(seed, first + i));
                Ctx ctx;
                std::string msg;
                Status st = run_one(c, ctx, msg);
                evals++;
                sh[w].done.store(evals);
                if (dig.is_open()) dig << (first + i) << " " << ctx.digest << "\n";
                if (st == Skipped)
                {
                    discarded++;
                    continue;
                }
                if (st == Fail)
                {
                    std::ofstream f(base + ".fail", std::ios::binary);
                    f << first + i << "\n" << msg;
                    rc = 77;
                    break;
                }
                for (auto& [k, v] : ctx.labels) labels[k] += v;
                if (ctx.is_nontrivial)
                {
                    nontrivial++;
                    uint64_t h = 1469598103934665603ULL;
                    for (auto v : c.log())
                    {
                        h ^= v;
                        h *= 1099511628211ULL;
                        h ^= h >> 29;
                    }
                    hashes.insert(h);
                    if (sample_idx.size() < 2 || (sample_idx.size() < 4 && c.log().size() > 200))
                        sample_idx.push_back(first + i);
                }
            }
            std::ofstream f(base + ".stat");
            f << evals << " " << discarded << " " << nontrivial << " " << hashes.size() << " " << sample_idx.size();
            for (auto s : sample_idx) f << " " << s;
            f << "\n";
            for (auto& [k, v] : labels) f << v << " " << k << "\n";
            f.close();
            std::ofstream hf(base + ".hash", std::ios::binary);
            for (auto h : hashes) hf.write(reinterpret_cast<const char*>(&h), 8);
            hf.close();
            dig.close();
            _exit(rc);
        }
        pids[w] = pid;
    }

    struct Bad
    {
        uint64_t w, index;
        Status st;
        std::string msg, err;
    };
    std::vector<Bad> bads;
    uint64_t killed = 0;
    for (uint64_t left = W; left > 0; left--)
    {
        int ws    = 0;
        pid_t pid = waitpid(-1, &ws, 0);
        uint64_t w = 0;
        while (w < W && pids[w] != pid) w++;
        if (w == W)
        {
            left++;
            continue;
        }
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) continue;
        Bad b{w, sh[w].index.load(), Crash, "", ""};
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77)
        {
            b.st = Fail;
            std::ifstream f(g_tmp + "/w" + std::to_string(w) + ".fail", std::ios::binary);
            std::string line;
            std::getline(f, line);
            b.index = std::stoull(line);
            std::stringstream ss;
            ss << f.rdbuf();
            b.msg = ss.str();
        }
        else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 78)
            b.st = Hang;
        else if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL)
        {
            killed++;
            continue;
        }
        else
            b.err = read_file(g_tmp + "/w" + std::to_string(w) + ".err").substr(0, 6000);
        bads.push_back(b);
        for (uint64_t k = 0; k < W; k++) sh[k].stop.store(1);
    }

    // merge statistics
    uint64_t evals = 0, discarded = 0, nontrivial = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> samples;
    for (uint64_t w = 0; w < W; w++)
    {
        std::string base = g_tmp + "/w" + std::to_string(w);
        std::ifstream f(base + ".stat");
        if (!f)
        {
            evals += sh[w].done.load();
            continue;
        }
        uint64_t e, d, n, h, s;
        f >> e >> d >> n >> h >> s;
        evals += e;
        discarded += d;
        nontrivial += n;
        for (uint64_t i = 0; i < s; i++)
        {
            uint64_t x;
            f >> x;
            samples.push_back(x);
        }
        uint64_t v;
        std::string k;
        while (f >> v && std::getline(f, k)) labels[k.empty() ? k : k.substr(1)] += v;
        std::ifstream hf(base + ".hash", std::ios::binary);
        uint64_t x;
        while (hf.read(reinterpret_cast<char*>(&x), 8)) hashes.insert(x);
        if (!digest_out.empty())
        {
            std::ofstream o(digest_out, std::ios::app);
            std::ifstream d2(base + ".dig");
            if (d2.peek() != EOF) o << d2.rdbuf();
        }
    }
    const double t_run = now() - t0;
    if (a.count("--hash-out"))
    {
        std::ofstream o(a["--hash-out"], std::ios::binary);
        for (auto h : hashes) o.write(reinterpret_cast<const char*>(&h), 8);
    }

    // failures: confirm, shrink, write the replay file
    std::sort(bads.begin(), bads.end(), [](auto& x, auto& y) { return x.index < y.index; });
    std::string replay, vmsg;
    uint64_t unreproduced = 0, shrink_execs = 0;
    for (auto& b : bads)
    {
        Result r    = exec_seed(seed, b.index, true);
        int repeats = is_bad(r.status);
        if (repeats)
            for (int i = 0; i < 2; i++) repeats += is_bad(exec_seed(seed, b.index, false).status);
        if (repeats == 3)
        {
            if (r.status != Hang)
            {
                while (!r.log.empty() && r.log.back() == 0) r.log.pop_back();
                Result s = shrink(r, shrink_budget, shrink_execs);
                Result v = exec_choices(s.log, true);
                if (is_bad(v.status))
                {
                    v.log = s.log;
                    r     = v;
                }
            }
            replay = write_replay(rdir, r, config, seed, "");
            vmsg   = r.msg;
            break;
        }
        // the case alone does not fail: replay what the worker did before it
        auto run_history = [&]
        {
            return in_child(
                [&](Result& cr)
                {
                    for (uint64_t i = first + b.w; i <= b.index; i += W)
                    {
                        auto c = Choices::random(case_seed(seed, i));
                        Ctx ctx;
                        ctx.verbose = i == b.index;
                        cr.status   = run_one(c, ctx, cr.msg);
                        cr.text     = ctx.text.str();
                        if (is_bad(cr.status)) return;
                    }
                });
        };
        Result h = run_history();
        if (is_bad(h.status) || repeats > 0)
        {
            if (!is_bad(h.status)) h = r;
            h.msg += " (depends on the cases executed before it in the same process)";
            replay = write_replay(rdir, h, config, seed,
                                  std::to_string(first + b.w) + " " + std::to_string(W) + " " + std::to_string(b.index));
            vmsg   = h.msg;
            break;
        }
        unreproduced++;
        std::cerr << "not reproduced: case " << b.index << ": " << b.msg << b.err << "\n";
    }

    std::ostringstream js;
    js << "{\"evaluations\":" << evals << ",\"discarded\":" << discarded << ",\"nontrivial\":" << nontrivial
       << ",\"distinct_nontrivial\":" << hashes.size() << ",\"unreproduced\":" << unreproduced << ",\"killed\":" << killed
       << ",\"run_s\":" << t_run << ",\"shrink_execs\":" << shrink_execs << ",\"rule\":" << json_str(property_def.rule)
       << ",\"labels\":{";
    bool firstl = true;
    for (auto& [k, v] : labels)
    {
        js << (firstl ? "" : ",") << json_str(k) << ":" << v;
        firstl = false;
    }
    js << "},\"samples\":[";
    std::sort(samples.begin(), samples.end());
    int ns = 0;
    for (std::size_t i = 0; i < samples.size() && ns < 4; i += std::max<std::size_t>(1, samples.size() / 4))
    {
        auto r = exec_seed(seed, samples[i], true);
        if (r.text.size() > 2500) r.text = r.text.substr(0, 2500) + " ...";
        js << (ns ? "," : "") << "{\"case\":" << samples[i] << ",\"text\":" << json_str(r.text) << "}";
        ns++;
    }
    js << "],\"violation\":" << (replay.empty() ? "null" : json_str(replay)) << ",\"message\":" << json_str(vmsg) << "}\n";
    if (!out.empty())
    {
        std::ofstream f(out);
        f << js.str();
    }
    else
        std::cerr << js.str();
    cleanup();
    return replay.empty() ? 0 : 1;
}

} // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }
#else
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    std::cout.rdbuf(nullptr);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, std::size_t size)
{
    auto c = pbt::Choices::bytes(data, size);
    pbt::Ctx ctx;
    std::string msg;
    try
    {
        pbt::property_def.run(c, ctx);
    }
    catch (const pbt::Discard&)
    {
    }
    catch (const std::exception& e)
    {
        // hand the case over to the engine's own replayer
        if (const char* p = getenv("PBT_FUZZ_FAIL"))
        {
            std::ofstream f(p);
            f << "pooya-replay 1\nproperty " << pbt::property_def.id << "\nconfig dbg\nseed 0\nchoices "
              << c.log().size() << "\n";
            for (auto v : c.log()) f << v << "\n";
            f << "outcome violated (found by libFuzzer)\n---- message ----\n" << e.what() << "\n";
        }
        std::cerr << "VIOLATED: " << e.what() << "\n";
        abort();
    }
    return 0;
}
#endif
