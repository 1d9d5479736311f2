// Common runtime-monitoring harness support.
//
// A harness is one translation unit that includes this header, defines cases with VH_CASE(name, shards)
// and gets main() from VH_MAIN(). The runner (bin/check.py) starts one process per (case, shard), reads the
// JSON it leaves behind and classifies every other ending (sanitizer report, abort, hang).
//
//   harness --list                                    print "case shards" lines
//   harness --case C --seed S --tier T --shard i/n --out F [--iter K] [--verbose]
#pragma once

#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <exception>
#include <typeinfo>
#include <initializer_list>
#include <mutex>
#include <atomic>
#include <memory>

#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sched.h>
#include <time.h>

namespace vh
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
    {
        const unsigned char* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
        return mix(h);
    }

    inline uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

    struct Rng
    {
        uint64_t s = 1;
        explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
        uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
        // [0, n)
        uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
        // [a, b]
        int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b) - static_cast<uint64_t>(a) + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        bool flip() { return next() & 1; }
        template <class V> auto& pick(V& v) { return v[below(v.size())]; }
        template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        using result_type = uint64_t;
        static constexpr uint64_t min() { return 0; }
        static constexpr uint64_t max() { return ~0ull; }
        uint64_t operator()() { return next(); }
        template <class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
    };

    struct Violation
    {
        std::string key, msg;
    };

    // The harness itself is broken or observed nothing: never a verdict.
    struct HarnessError
    {
        std::string msg;
    };

    inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline std::string fmt(const char* f, ...)
    {
        char buf[4096];
        va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
        if (n < 0) return "";
        return std::string(buf, std::min<size_t>(n, sizeof buf - 1));
    }

    inline std::string json(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
            else if (ch < 0x20 || ch >= 0x7f) r += fmt("\\u%04x", ch);
            else r += static_cast<char>(ch);
        }
        return r + "\"";
    }

    inline std::string hex(const void* p, size_t n, size_t cap = 64)
    {
        std::string r; const unsigned char* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n && i < cap; ++i) r += fmt("%02x", b[i]);
        if (n > cap) r += fmt("..(%zu bytes)", n);
        return r;
    }

    // Survives a crash: the runner reads the file back.
    struct Shared
    {
        uint64_t iter;
        uint64_t started;
        char note[1024];
    };

    struct Case
    {
        std::string name, tier, out, tmp;
        uint64_t seed = 1;
        unsigned shard = 0, shards = 1;
        int64_t only_iter = -1;
        bool verbose = false;
        bool thorough = false;
        Rng rng;
        uint64_t cur_iter = 0;

        std::map<std::string, uint64_t> counters;
        std::unordered_set<uint64_t> distinct_set;
        uint64_t evaluations = 0;
        std::vector<std::string> samples;
        std::vector<Violation> violations;
        Shared* sh = nullptr;

        // Number of iterations for this tier.
        uint64_t n(uint64_t quick, uint64_t deep) const { return thorough ? deep : quick; }

        // Run body for every iteration that belongs to this shard, each with its own derived generator. A
        // violation ends the iteration (and is recorded once per key).
        template <class F> void iterate(uint64_t count, F body)
        {
            for (uint64_t i = 0; i < count; ++i)
            {
                if (i % shards != shard) continue;
                if (only_iter >= 0 && i != static_cast<uint64_t>(only_iter)) continue;
                begin(i);
                try { body(i); }
                catch (const Violation& v) { record(v); }
                if (violations.size() >= 20) break;
            }
        }

        void begin(uint64_t i)
        {
            cur_iter = i;
            rng = Rng(mix(seed) ^ mix(hash_str(name)) ^ mix(i * 2 + 1));
            if (sh) { sh->iter = i; sh->started++; }
        }

        void note(const std::string& s)
        {
            if (sh) { strncpy(sh->note, s.c_str(), sizeof sh->note - 1); }
            if (verbose) fprintf(stderr, "note: %s\n", s.c_str());
        }

        void record(const Violation& v)
        {
            for (auto& o : violations) if (o.key == v.key) return;
            Violation w = v;
            w.msg += fmt(" [case %s iter %llu]", name.c_str(), static_cast<unsigned long long>(cur_iter));
            violations.push_back(w);
            if (verbose) fprintf(stderr, "VIOLATION %s: %s\n", w.key.c_str(), w.msg.c_str());
        }

        [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{ key, msg }; }

        void eval(uint64_t k = 1) { evaluations += k; }
        void count(const char* what, uint64_t k = 1) { counters[what] += k; }
        void distinct(uint64_t h) { if (distinct_set.size() < 400000) distinct_set.insert(h); }
        void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 600)); }
        bool want_sample() const { return samples.size() < 3; }

        void write(const char* status, const std::string& detail)
        {
            std::string j = "{\"status\":" + json(status) + ",\"detail\":" + json(detail) + ",\"case\":" + json(name);
            j += fmt(",\"evaluations\":%llu,\"distinct\":%zu,\"counters\":{", static_cast<unsigned long long>(evaluations), distinct_set.size());
            bool first = true;
            for (auto& kv : counters) { j += (first ? "" : ",") + json(kv.first) + fmt(":%llu", static_cast<unsigned long long>(kv.second)); first = false; }
            j += "},\"samples\":["; first = true;
            for (auto& s : samples) { j += (first ? "" : ",") + json(s); first = false; }
            j += "],\"violations\":["; first = true;
            for (auto& v : violations) { j += (first ? "" : ",") + ("{\"key\":" + json(v.key) + ",\"msg\":" + json(v.msg) + "}"); first = false; }
            j += "]}\n";
            FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
            if (!f) _exit(3);
            fwrite(j.data(), 1, j.size(), f);
            // the set of distinct hashes, for an exact union over shards
            if (!out.empty())
            {
                fclose(f);
                f = fopen((out + ".dst").c_str(), "wb");
                for (uint64_t h : distinct_set) fwrite(&h, 8, 1, f);
                fclose(f);
            }
        }
    };

    struct CaseDef { const char* name; unsigned shards; void (*fn)(Case&); };
    inline std::vector<CaseDef>& cases() { static std::vector<CaseDef> v; return v; }
    struct Reg { Reg(const char* n, unsigned s, void (*f)(Case&)) { cases().push_back({ n, s, f }); } };

    inline std::string type_name(const std::type_info& t)
    {
        int st = 0; char* p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
        std::string r = st == 0 && p ? p : t.name(); free(p); return r;
    }

    inline int run_main(int argc, char** argv)
    {
        Case c;
        std::string tier = "quick";
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--list") { for (auto& d : cases()) printf("%s %u\n", d.name, d.shards); return 0; }
            else if (a == "--case") c.name = val();
            else if (a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--tier") tier = val();
            else if (a == "--out") c.out = val();
            else if (a == "--tmp") c.tmp = val();
            else if (a == "--iter") c.only_iter = strtoll(val().c_str(), nullptr, 10);
            else if (a == "--verbose") c.verbose = true;
            else if (a == "--shard") { unsigned x = 0, y = 1; sscanf(val().c_str(), "%u/%u", &x, &y); c.shard = x; c.shards = y ? y : 1; }
        }
        c.tier = tier; c.thorough = tier == "thorough";
        std::string made;
        if (c.tmp.empty()) { char t[] = "/tmp/vh.XXXXXX"; c.tmp = mkdtemp(t); made = c.tmp; }
        if (!c.out.empty())
        {
            int fd = open((c.out + ".st").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0)
            {
                void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) c.sh = static_cast<Shared*>(p);
            }
            if (fd >= 0) close(fd);
        }
        for (auto& d : cases())
        {
            if (c.name != d.name) continue;
            const char* status = "ok"; std::string detail;
            c.begin(0);
            try { d.fn(c); }
            catch (const Violation& v) { c.record(v); }
            catch (const HarnessError& e) { status = "harness-error"; detail = e.msg; }
            catch (const std::exception& e) { c.record({ "exception:" + type_name(typeid(e)), std::string("unexpected exception escaped an operation: ") + type_name(typeid(e)) + ": " + e.what() }); }
            catch (...)
            {
                auto t = abi::__cxa_current_exception_type();
                std::string n = t ? type_name(*t) : "?";
                c.record({ "exception:" + n, "unexpected exception escaped an operation: " + n });
            }
            c.write(status, detail);
            for (auto& v : c.violations) fprintf(stderr, "violation %s: %s\n", v.key.c_str(), v.msg.c_str());
            if (!made.empty()) { (void)!rmdir(made.c_str()); }
            fflush(nullptr);
            return c.violations.empty() ? (strcmp(status, "ok") == 0 ? 0 : 3) : 1;
        }
        fprintf(stderr, "no such case %s\n", c.name.c_str());
        return 3;
    }

    // Live-object ledger: every instrumented object is registered by address; double construction, double
    // destruction, use after destruction and leaks are observable. Throw points are counted globally.
    struct Ledger
    {
        std::unordered_set<const void*> live;
        int64_t countdown = -1;      // throw when it reaches zero; negative: never
        uint64_t ops = 0;            // throw points passed
        uint64_t constructed = 0, destroyed = 0;
        bool bad = false; std::string what;
        void err(const char* w) { if (!bad) { bad = true; what = w; } }
        void reset() { live.clear(); countdown = -1; ops = 0; constructed = destroyed = 0; bad = false; what.clear(); }
        struct Thrown {};
        void point() { ++ops; if (countdown > 0 && --countdown == 0) { countdown = -1; throw Thrown{}; } }
        void add(const void* p) { ++constructed; if (!live.insert(p).second) err("constructed over a live object"); }
        void del(const void* p) { ++destroyed; if (live.erase(p) == 0) err("destroyed an object that is not alive"); }
        void use(const void* p) { if (!live.count(p)) err("used an object that is not alive"); }
    };
    inline Ledger& ledger() { static Ledger l; return l; }

    // Value with identity `v`; copies and moves are throw points, moved-from objects are marked.
    struct Obj
    {
        int v = 0;
        bool moved = false;
        std::unique_ptr<int> heap; // makes a missed destructor a leak and a bitwise copy a double free
        Obj() : v(0) { ledger().point(); heap.reset(new int(v)); ledger().add(this); }
        Obj(int x) : v(x) { ledger().point(); heap.reset(new int(v)); ledger().add(this); }
        Obj(const Obj& o) : v(o.v) { ledger().use(&o); check_src(o); ledger().point(); heap.reset(new int(v)); ledger().add(this); }
        Obj(Obj&& o) noexcept : v(o.v), heap(std::move(o.heap)) { ledger().use(&o); check_src(o); o.moved = true; ledger().add(this); }
        Obj& operator=(const Obj& o) { ledger().use(&o); ledger().use(this); check_src(o); ledger().point(); v = o.v; moved = false; heap.reset(new int(v)); return *this; }
        Obj& operator=(Obj&& o) noexcept { ledger().use(&o); ledger().use(this); check_src(o); if (this != &o) { v = o.v; heap = std::move(o.heap); moved = false; o.moved = true; } return *this; }
        ~Obj() { ledger().del(this); }
        static void check_src(const Obj& o) { if (o.moved) ledger().err("copied or moved from a moved-from object"); }
        int get() const { ledger().use(this); if (moved) { ledger().err("read a moved-from object"); return -1; } if (!heap || *heap != v) { ledger().err("object content damaged"); return -2; } return v; }
        friend bool operator<(const Obj& a, const Obj& b) { ledger().point(); return a.get() < b.get(); }
        friend bool operator==(const Obj& a, const Obj& b) { return a.get() == b.get(); }
    };

    inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    inline void spin(unsigned k) { for (volatile unsigned i = 0; i < k; i = i + 1) {} }
    inline void nap_us(unsigned us) { timespec t{ us / 1000000, static_cast<long>(us % 1000000) * 1000 }; nanosleep(&t, nullptr); }
    // A small random delay that shakes the schedule.
    inline void jitter(Rng& r) { switch (r.below(8)) { case 0: sched_yield(); break; case 1: spin(static_cast<unsigned>(r.below(2000))); break; case 2: nap_us(static_cast<unsigned>(r.below(60))); break; case 3: spin(static_cast<unsigned>(r.below(100))); break; default: break; } }
}

#define VH_CASE(name_, shards_) \
    static void vh_fn_##name_(vh::Case& c); \
    static vh::Reg vh_reg_##name_(#name_, shards_, vh_fn_##name_); \
    static void vh_fn_##name_([[maybe_unused]] vh::Case& c)

#define VH_CHECK(c, cond, key, ...) do { if (!(cond)) (c).fail(key, vh::fmt(__VA_ARGS__)); } while (0)

#define VH_MAIN() int main(int argc, char** argv) { return vh::run_main(argc, argv); }
