// Stateless model checker used by every harness in this directory.
//
// A scenario is an ordinary function that drives the real Simu code and asks
// the explorer, through Ctx::choose, for every decision that is not fixed:
// which operation comes next, which value an input takes, which callback kills
// what. The explorer runs the scenario once per sequence of answers, in
// depth-first order, until every sequence has been executed (no sampling).
//
// Work is divided among shard processes on prefixes of the choice sequence.
// The current sequence is mirrored in a memory mapped file so that a crash, a
// sanitizer report or a hang is attributed to the sequence that caused it.
#pragma once

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{

struct Fail
{
    std::string key;
    std::string msg;
};
struct Prune
{
};

inline std::string vfmt(const char* f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

struct Hasher
{
    uint64_t h = 0x1234567;
    Hasher&  add(uint64_t v)
    {
        h = mix(h, v);
        return *this;
    }
    // quantised: rounding differences do not make new states
    Hasher& addf(double v, double q = 1e-3)
    {
        if (std::isnan(v))
            return add(0x7ff8);
        if (std::isinf(v))
            return add(v > 0 ? 0x7ff0 : 0xfff0);
        return add((uint64_t)(int64_t)std::llround(v / q));
    }
};

struct Cur // memory mapped
{
    volatile uint64_t cases;
    volatile int32_t  len;
    volatile int32_t  active;
    char              scenario[64];
    int32_t           choices[1024];
};

class Ctx
{
public:

    bool thorough = false;
    bool verbose  = false;

    // one of n alternatives, all of which are explored
    int choose(int n, const char* label = "")
    {
        if (n <= 0)
            fail("harness", "choose with no alternative (%s)", label);
        int c;
        if (pos_ < path_.size())
        {
            c = path_[pos_];
            if (n_[pos_] == 0)
                n_[pos_] = n; // replaying
            else if (n_[pos_] != n)
            {
                fprintf(stderr, "mc: non deterministic scenario %s at %zu (%s): %d vs %d\n",
                        scenario_.c_str(), pos_, label, n_[pos_], n);
                _exit(97);
            }
            if (c >= n)
            {
                fprintf(stderr, "mc: replay does not fit the scenario\n");
                _exit(98);
            }
        }
        else
        {
            c = 0;
            path_.push_back(0);
            n_.push_back(n);
        }
        ++pos_;
        if (cur_ && pos_ <= 1024)
        {
            cur_->choices[pos_ - 1] = c;
            cur_->len               = (int)pos_;
        }
        if (verbose)
            printf("  choice %zu: %s = %d/%d\n", pos_ - 1, label, c, n);
        shardPoint(n);
        return c;
    }
    bool flag(const char* label = "") { return choose(2, label) == 1; }
    template <class T>
    const T& pick(const std::vector<T>& v, const char* label = "")
    {
        return v[choose((int)v.size(), label)];
    }
    // number of alternatives per tier
    template <class T>
    T tier(T quick, T deep) const
    {
        return thorough ? deep : quick;
    }

    [[noreturn]] void prune() { throw Prune{}; }
    // what follows is long: only one shard goes on from here
    void divide()
    {
        if (nShards_ > 1 && prefixProduct_ < 128.0 * nShards_)
        {
            prefixProduct_ = 128.0 * nShards_;
            divideHere();
        }
    }

    // false while the choices made so far were already made, in the same way,
    // by the previous run: whatever was checked then need not be checked again
    bool fresh() const { return pos_ > freshFrom_ || verbose; }

    [[noreturn]] void fail(const char* key, const char* f, ...)
    {
        va_list ap;
        va_start(ap, f);
        auto s = vfmt(f, ap);
        va_end(ap);
        throw Fail{key, s};
    }
    void log(const char* f, ...)
    {
        if (!verbose)
            return;
        va_list ap;
        va_start(ap, f);
        printf("  ");
        vprintf(f, ap);
        printf("\n");
        va_end(ap);
    }

    // accounting
    void transition(uint64_t n = 1) { transitions += n; }
    void state(uint64_t h)
    {
        if (states.size() < 6000000)
            states.insert(h);
        else
            statesTruncated = true;
    }
    // true the first time this key is met in this scenario
    bool firstVisit(uint64_t h) { return visited.insert(h).second; }
    void outcome(const char* what) { runOutcomes_.push_back(what); }
    // one reference/model answer compared against the implementation
    void validated(uint64_t n = 1) { checked += n; }

    uint64_t                        transitions = 0, checked = 0, runs = 0, pruned = 0;
    bool                            statesTruncated = false;
    std::unordered_set<uint64_t>    states, visited;
    std::map<std::string, uint64_t> outcomes;

    // explorer side
    std::vector<int> path_, n_;
    size_t           pos_ = 0, freshFrom_ = 0;
    std::string      scenario_;
    Cur*             cur_ = nullptr;
    int              shard_ = 0, nShards_ = 1;
    uint64_t         prefixCounter_ = 0;
    bool             claimed_       = false;
    double           prefixProduct_ = 1;
    size_t           sharedDepth_   = 0;

    void startRun()
    {
        runOutcomes_.clear();
        savedT_ = transitions;
        savedC_ = checked;
        freshFrom_     = path_.empty() || replaying_ ? 0 : path_.size() - 1;
        pos_           = 0;
        prefixProduct_ = 1;
        if (cur_)
        {
            cur_->len    = 0;
            cur_->active = 1;
            cur_->cases  = cur_->cases + 1;
        }
    }
    // decide ownership of a prefix exactly once per prefix
    void shardPoint(int n)
    {
        if (nShards_ == 1)
            return;
        if (prefixProduct_ >= 128.0 * nShards_)
            return; // below the dividing depth
        prefixProduct_ *= n;
        if (prefixProduct_ >= 128.0 * nShards_)
            divideHere();
    }
    // a dividing node, identified by its path
    void divideHere()
    {
        uint64_t h = 0x51ull;
        for (size_t i = 0; i < pos_; ++i)
            h = mix(h, (uint64_t)path_[i] + 1);
        if ((int)((h >> 20) % (uint64_t)nShards_) != shard_)
        {
            // skip the whole sub tree
            path_.resize(pos_);
            n_.resize(pos_);
            skipped_ = true;
            throw Prune{};
        }
    }
    bool ownsLeaf() const
    {
        if (nShards_ == 1 || prefixProduct_ >= 128.0 * nShards_)
            return true;
        uint64_t h = 0x51ull;
        for (size_t i = 0; i < pos_; ++i)
            h = mix(h, (uint64_t)path_[i] + 1);
        return (int)((h >> 20) % (uint64_t)nShards_) == shard_;
    }
    bool skipped_ = false, replaying_ = false;

    // only runs owned by this shard are counted
    std::vector<const char*> runOutcomes_;
    uint64_t                 savedT_ = 0, savedC_ = 0;
    void                     settle(bool owned)
    {
        if (owned)
            for (auto* o : runOutcomes_)
                ++outcomes[o];
        else
        {
            transitions = savedT_;
            checked     = savedC_;
        }
    }
};

struct Scenario
{
    std::string               name;
    std::function<void(Ctx&)> run;
};
inline std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
struct Register
{
    Register(const char* name, std::function<void(Ctx&)> f)
    {
        scenarios().push_back({name, std::move(f)});
    }
};
#define MC_SCENARIO(name)                                                      \
    static void          mc_##name(mc::Ctx& ctx);                              \
    static mc::Register  mc_reg_##name(#name, mc_##name);                      \
    static void          mc_##name(mc::Ctx& ctx)

#define MC_CHECK(cond, key, ...)                                               \
    do                                                                         \
    {                                                                          \
        if (!(cond))                                                           \
            ctx.fail(key, __VA_ARGS__);                                        \
    } while (0)

inline std::string jsonEsc(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if ((unsigned char)c < 32)
            o += c == '\n' ? "\\n" : " ";
        else
            o += c;
    }
    return o;
}

inline std::string pathStr(const Ctx& c, size_t len)
{
    std::string s;
    for (size_t i = 0; i < len; ++i)
        s += (i ? "," : "") + std::to_string(c.path_[i]);
    return s;
}

struct Violation
{
    std::string key, msg, replay;
};

// Runs f, turning every exception that is not ours into a violation.
inline bool guarded(Ctx& ctx, const Scenario& s, std::vector<Violation>& out,
                    std::map<std::string, int>& perKey)
{
    auto record = [&](const std::string& key, const std::string& msg) {
        if (perKey[key]++ < 3)
            out.push_back({key, msg, s.name + ":" + pathStr(ctx, ctx.pos_)});
    };
    ctx.skipped_ = false;
    try
    {
        s.run(ctx);
    }
    catch (const Prune&)
    {
        return true;
    }
    catch (const Fail& f)
    {
        record(f.key, f.msg);
        return false;
    }
    catch (const std::exception& e)
    {
        record("exception", std::string("unexpected exception: ") + e.what());
        return false;
    }
    return true;
}

inline int mainImpl(int argc, char** argv)
{
    std::string out, curPath, replay, only;
    bool        thorough = false, verbose = false;
    int         shard = 0, nShards = 1;
    double      budget = 1e18;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        next = [&] { return std::string(argv[++i]); };
        if (a == "--thorough")
            thorough = true;
        else if (a == "--shard")
            sscanf(argv[++i], "%d/%d", &shard, &nShards);
        else if (a == "--out")
            out = next();
        else if (a == "--cur")
            curPath = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--only")
            only = next();
        else if (a == "-v")
            verbose = true;
        else if (a == "--budget")
            budget = atof(argv[++i]);
        else if (a == "--list")
        {
            for (auto& s : scenarios())
                printf("%s\n", s.name.c_str());
            return 0;
        }
    }
    Cur* cur = nullptr;
    if (!curPath.empty())
    {
        int fd = open(curPath.c_str(), O_RDWR | O_CREAT, 0600);
        if (ftruncate(fd, sizeof(Cur)))
            return 99;
        cur = (Cur*)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }

    if (!replay.empty())
    {
        auto        colon = replay.find(':');
        std::string name  = replay.substr(0, colon);
        for (auto& s : scenarios())
        {
            if (s.name != name)
                continue;
            Ctx ctx;
            ctx.thorough  = thorough;
            ctx.verbose   = verbose;
            ctx.scenario_ = name;
            std::string rest = replay.substr(colon + 1);
            char*       p    = rest.data();
            while (*p)
            {
                ctx.path_.push_back((int)strtol(p, &p, 10));
                ctx.n_.push_back(0);
                if (*p == ',')
                    ++p;
            }
            ctx.replaying_ = true;
            ctx.startRun();
            std::vector<Violation>     v;
            std::map<std::string, int> k;
            bool                       ok = guarded(ctx, s, v, k);
            if (!ok)
            {
                printf("REPRODUCED key=%s %s\n", v[0].key.c_str(), v[0].msg.c_str());
                return 1;
            }
            printf("NOT-REPRODUCED\n");
            return 0;
        }
        printf("no such scenario\n");
        return 96;
    }

    auto   t0      = std::chrono::steady_clock::now();
    auto   elapsed = [&] {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    };
    std::string                json = "{\"scenarios\":[";
    std::vector<Violation>     violations;
    std::map<std::string, int> perKey;
    bool                       first = true, exhausted = true;
    for (auto& s : scenarios())
    {
        if (!only.empty() && s.name != only)
            continue;
        Ctx ctx;
        ctx.thorough  = thorough;
        ctx.scenario_ = s.name;
        ctx.cur_      = cur;
        ctx.shard_    = shard;
        ctx.nShards_  = nShards;
        if (cur)
        {
            strncpy(cur->scenario, s.name.c_str(), 63);
        }
        bool     done  = false;
        bool     trunc = false;
        uint64_t depth = 0;
        double   start = elapsed();
        std::string sample;
        while (!done)
        {
            ctx.startRun();
            size_t before = violations.size();
            guarded(ctx, s, violations, perKey);
            (void)before;
            bool owned = !ctx.skipped_ && ctx.ownsLeaf();
            ctx.settle(owned);
            if (owned)
            {
                ++ctx.runs;
                if (ctx.pos_ > depth)
                {
                    depth = ctx.pos_;
                }
                if (ctx.runs == 7 || ctx.runs == 1)
                    sample = pathStr(ctx, ctx.pos_);
            }
            else
                ++ctx.pruned;
            // next sequence
            ctx.path_.resize(ctx.pos_);
            ctx.n_.resize(ctx.pos_);
            while (!ctx.path_.empty() && ctx.path_.back() + 1 >= ctx.n_.back())
            {
                ctx.path_.pop_back();
                ctx.n_.pop_back();
            }
            if (ctx.path_.empty())
                done = true;
            else
                ++ctx.path_.back();
            if (violations.size() > 60)
            {
                trunc = true;
                break;
            }
            if ((ctx.runs & 63) == 0 && elapsed() > budget)
            {
                trunc = true;
                break;
            }
        }
        if (trunc)
            exhausted = false;
        json += fmt("%s{\"name\":\"%s\",\"runs\":%llu,\"transitions\":%llu,\"checked\":%llu,"
                    "\"states\":%zu,\"depth\":%llu,\"complete\":%s,\"wall\":%.2f,\"sample\":\"%s\",\"outcomes\":{",
                    first ? "" : ",", s.name.c_str(), (unsigned long long)ctx.runs,
                    (unsigned long long)ctx.transitions, (unsigned long long)ctx.checked,
                    ctx.states.size(), (unsigned long long)depth, trunc ? "false" : "true",
                    elapsed() - start, sample.size() > 400 ? "" : sample.c_str());
        bool f2 = true;
        for (auto& o : ctx.outcomes)
        {
            json += fmt("%s\"%s\":%llu", f2 ? "" : ",", o.first.c_str(),
                        (unsigned long long)o.second);
            f2 = false;
        }
        json += "}}";
        first = false;
        // states are unioned across shards by check.py through this side file
        if (!out.empty() && !ctx.states.empty())
        {
            std::string p = out + "." + s.name + ".states";
            FILE*       f = fopen(p.c_str(), "wb");
            for (uint64_t h : ctx.states)
                fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
    json += fmt("],\"exhausted\":%s,\"violations\":[", exhausted ? "true" : "false");
    first = true;
    for (auto& v : violations)
    {
        json += fmt("%s{\"key\":\"", first ? "" : ",") + jsonEsc(v.key) + "\",\"msg\":\""
                + jsonEsc(v.msg) + "\",\"replay\":\"" + jsonEsc(v.replay) + "\"}";
        first = false;
    }
    json += "]}";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        fputs(json.c_str(), f);
        fclose(f);
    }
    else
        printf("%s\n", json.c_str());
    if (cur)
        cur->active = 0;
    fflush(stdout);
    return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::mainImpl(argc, argv); }
#endif
