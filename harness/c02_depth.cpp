// C02: the cost of vector_set operations, observed two ways:
//  * distinct elements the comparator is shown during one lookup (= the search depth);
//  * basic blocks executed inside one operation (compiler coverage callback), for operations that compare nothing.
#include "vh.h"
#include "Awl/VectorSet.h"

#include <algorithm>
#include <cmath>

using vh::Case;

static uint64_t g_blocks;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++g_blocks; }

namespace
{
    struct K { int v; };
    std::vector<const int*> g_seen;
    bool g_track = false;
    __attribute__((no_sanitize_coverage)) void seen(const int& x) { if (g_track) g_seen.push_back(&x); }
    struct Tracking
    {
        using is_transparent = void;
        bool operator()(const int& a, const int& b) const { return a < b; }
        bool operator()(K a, const int& b) const { seen(b); return a.v < b; }
        bool operator()(const int& a, K b) const { seen(a); return a < b.v; }
    };
    using S = awl::vector_set<int, Tracking>;

    double lg(size_t n) { return std::log2(static_cast<double>(n) + 1.0); }

    size_t depth_of(S& s, int k)
    {
        g_seen.clear(); g_track = true;
        (void)s.find(K{ k });
        g_track = false;
        std::sort(g_seen.begin(), g_seen.end());
        return std::unique(g_seen.begin(), g_seen.end()) - g_seen.begin();
    }

    size_t max_depth(S& s) { size_t d = 0; for (int v : s) d = std::max(d, depth_of(s, v)); return d; }

    void bound(Case& c, S& s, size_t nref, const char* key, double factor = 2.0)
    {
        const size_t d = max_depth(s);
        c.eval(s.size()); c.count("depth-measurements", s.size());
        c.distinct(vh::mix(d * 1000003 + s.size() * 31) ^ vh::hash_str(key) ^ vh::mix(static_cast<uint64_t>(s.empty() ? 0 : s.front())));
        VH_CHECK(c, static_cast<double>(d) <= factor * lg(nref) + 1.0, key, "search depth %zu with %zu elements (reference size %zu): bound %.1f", d, s.size(), nref, factor * lg(nref) + 1.0);
    }

    void arrange(vh::Rng& r, std::vector<int>& v, unsigned how)
    {
        switch (how)
        {
        case 0: break;
        case 1: std::reverse(v.begin(), v.end()); break;
        case 2: { std::vector<int> w; for (size_t i = 0, j = v.size(); i < j;) { w.push_back(v[i++]); if (i < j) w.push_back(v[--j]); } v = w; break; }
        case 3: { std::vector<int> w; for (size_t i = 0, j = v.size(); i < j;) { w.push_back(v[i++]); if (i < j) w.push_back(v[--j]); } std::reverse(w.begin(), w.end()); v = w; break; }
        case 4: { std::vector<int> w; for (size_t st = 0; st < 11; ++st) for (size_t i = st; i < v.size(); i += 11) w.push_back(v[i]); v = w; break; }
        case 5: { for (size_t i = 0; i + 8 < v.size(); i += 8) std::reverse(v.begin() + i, v.begin() + i + 8); break; }
        default: r.shuffle(v); break;
        }
    }
}

// Only insertions: the red-black bound holds exactly.
VH_CASE(insert_only, 4)
{
    c.iterate(c.n(84, 1400), [&](uint64_t it)
    {
        const int n = c.rng.pick({ 15, 64, 300, 1000, 2500 });
        std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i * 3;
        arrange(c.rng, v, it % 7);
        S s;
        int k = 0;
        for (int x : v) { s.insert(x); if (++k % 97 == 0 || k == n || k <= 40) bound(c, s, s.size(), "depth"); if (n > 900 && k % 97 == 0) k += 0; }
        if (c.want_sample()) c.sample(vh::fmt("%d insertions in order %u: depth %zu", n, static_cast<unsigned>(it % 7), max_depth(s)));
    });
}

VH_CASE(insert_permutations, 2)
{
    const int n = c.thorough ? 8 : 7;
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
    uint64_t id = 0;
    do { if (id++ % c.shards != c.shard) continue; S s; for (int x : v) s.insert(x); bound(c, s, s.size(), "depth"); c.distinct(vh::hash_bytes(v.data(), v.size() * 4)); } while (std::next_permutation(v.begin(), v.end()));
    c.sample(vh::fmt("all insertion orders of %d keys", n));
}

// Erase after building: the depth stays within the bound of the largest size the set ever had.
VH_CASE(drain, 4)
{
    c.iterate(c.n(56, 560), [&](uint64_t it)
    {
        const int n = c.rng.pick({ 200, 1000, 2000 });
        std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
        auto del = v; arrange(c.rng, v, it % 7); arrange(c.rng, del, it / 7 % 7);
        S s; for (int x : v) s.insert(x);
        int k = 0;
        for (int x : del) { s.erase(x); if (++k % 83 == 0 || s.size() == 20) bound(c, s, n, "depth"); }
        if (c.want_sample()) c.sample(vh::fmt("%d keys inserted in order %u, drained in order %u", n, static_cast<unsigned>(it % 7), static_cast<unsigned>(it / 7 % 7)));
    });
}

// A sliding window (queue-like use) and a priority-queue use.
VH_CASE(window, 2)
{
    c.iterate(c.n(8, 60), [&](uint64_t it)
    {
        const int w = c.rng.pick({ 30, 200, 1000 });
        const int dir = it / 2 % 2 ? -1 : 1;
        S s; int total = w * 12;
        for (int i = 0; i < total; ++i) { s.insert(dir * i); if (i >= w) s.erase(dir * (i - w)); if (i % (w / 2) == 0 && i > w) bound(c, s, s.size(), "depth", 2.6); }
        if (c.want_sample()) c.sample(vh::fmt("sliding window of %d, direction %d", w, dir));
    });
}

// Random insert/erase churn, fixed history (it does not depend on the seed).
VH_CASE(churn_fixed, 1)
{
    vh::Rng r(20240601);
    S s; size_t worst = 0; double ratio = 0; size_t at = 0;
    for (int i = 0; i < 100000; ++i)
    {
        const int k = static_cast<int>(r.below(1000));
        if (r.flip()) s.insert(k); else s.erase(k);
        if (i % 2000 == 1999) { size_t d = max_depth(s); c.eval(s.size()); c.distinct(vh::mix(d) ^ vh::mix(s.size() + i)); double x = d / lg(s.size()); if (x > ratio) { ratio = x; worst = d; at = s.size(); } }
    }
    c.sample(vh::fmt("100000 random operations over 1000 keys: worst depth %zu at %zu elements", worst, at));
    VH_CHECK(c, worst <= 0.6 * at, "linear", "search depth %zu with %zu elements after random insertions and removals", worst, at);
    VH_CHECK(c, ratio <= 2.6, "depth", "search depth %zu with %zu elements after random insertions and removals: bound %.1f", worst, at, 2.6 * lg(at));
}

// Always erase a leaf at the smallest depth: fixed adversarial history.
VH_CASE(erase_shallow_leaves_fixed, 1)
{
    S s; for (int i = 0; i < 1024; ++i) s.insert(i);
    size_t worst = 0, at = 1; double ratio = 0;
    for (int round = 0; round < 960; ++round)
    {
        std::vector<int> keys(s.begin(), s.end()); std::vector<size_t> d(keys.size());
        for (size_t i = 0; i < keys.size(); ++i) d[i] = depth_of(s, keys[i]);
        c.eval(keys.size());
        size_t m = *std::max_element(d.begin(), d.end());
        c.distinct(vh::mix(m * 4096 + keys.size()));
        if (m / lg(keys.size()) > ratio) { ratio = m / lg(keys.size()); worst = m; at = keys.size(); }
        size_t best = keys.size();
        for (size_t i = 0; i < keys.size(); ++i)
        {
            const bool leaf = (i == 0 || d[i - 1] < d[i]) && (i + 1 == keys.size() || d[i + 1] < d[i]);
            if (leaf && i + 1 != keys.size() && (best == keys.size() || d[i] < d[best])) best = i;
        }
        if (best == keys.size()) break;
        s.erase(keys[best]);
    }
    c.sample(vh::fmt("1024 ascending keys, 960 shallowest leaves erased: worst depth %zu at %zu elements", worst, at));
    VH_CHECK(c, worst <= 0.6 * at, "linear", "search depth %zu with %zu elements", worst, at);
    VH_CHECK(c, ratio <= 2.6, "depth", "search depth %zu with %zu elements: bound %.1f", worst, at, 2.6 * lg(at));
}

// Random churn, random seeds: never linear, whatever the seed.
VH_CASE(churn_random, 2)
{
    c.iterate(c.n(8, 60), [&](uint64_t)
    {
        const int range = c.rng.pick({ 1000, 3000 });
        S s;
        for (int i = 0; i < 20000; ++i)
        {
            const int k = static_cast<int>(c.rng.below(range));
            if (c.rng.flip()) s.insert(k); else s.erase(k);
            if (i % 2000 == 1999) { size_t d = max_depth(s); c.eval(s.size()); c.distinct(vh::mix(d) ^ vh::mix(s.size() + i)); VH_CHECK(c, d <= 0.5 * s.size() + 8, "linear", "search depth %zu with %zu elements after random operations", d, s.size()); }
        }
    });
}

namespace
{
    // The tree as it is at this commit, with the known defect of its removal. It tells the histories in which that
    // defect takes the depth beyond the bound (known findings) from those in which the bound is kept and has to be.
    struct Known
    {
        struct N { int v, l = -1, r = -1, p = -1; bool red = true; };
        std::vector<N> a; std::vector<int> free; int root = -1; size_t n = 0;
        N& at(int i) { return a[static_cast<size_t>(i)]; }
        bool red(int i) { return i >= 0 && at(i).red; }
        void link(int p, int o, int x) { if (p < 0) root = x; else if (at(p).l == o) at(p).l = x; else at(p).r = x; if (x >= 0) at(x).p = p; }
        void rotate(int x, bool left)
        {
            const int y = left ? at(x).r : at(x).l, b = left ? at(y).l : at(y).r;
            (left ? at(x).r : at(x).l) = b; if (b >= 0) at(b).p = x;
            link(at(x).p, x, y); (left ? at(y).l : at(y).r) = x; at(x).p = y;
        }
        int find(int v) { int x = root; while (x >= 0 && at(x).v != v) x = v < at(x).v ? at(x).l : at(x).r; return x; }
        bool insert(int v)
        {
            int p = -1, x = root; while (x >= 0) { p = x; if (at(x).v == v) return false; x = v < at(x).v ? at(x).l : at(x).r; }
            if (free.empty()) { x = static_cast<int>(a.size()); a.push_back({}); } else { x = free.back(); free.pop_back(); }
            at(x) = N{ v }; at(x).p = p; if (p < 0) root = x; else (v < at(p).v ? at(p).l : at(p).r) = x;
            ++n;
            while (x != root && at(at(x).p).red)
            {
                int q = at(x).p; const int g = at(q).p; const bool left = at(g).l == q; const int u = left ? at(g).r : at(g).l;
                if (red(u)) { at(q).red = at(u).red = false; at(g).red = true; x = g; }
                else { if (x == (left ? at(q).r : at(q).l)) { x = q; rotate(x, left); } q = at(x).p; at(q).red = false; at(at(q).p).red = true; rotate(at(q).p, !left); }
            }
            at(root).red = false; return true;
        }
        bool erase(int v)
        {
            const int z = find(v); if (z < 0) return false;
            int y = z; if (at(z).l >= 0 && at(z).r >= 0) { y = at(z).r; while (at(y).l >= 0) y = at(y).l; }
            int x = at(y).l >= 0 ? at(y).l : at(y).r; link(at(y).p, y, x);
            if (y != z)
            {
                at(y).red = at(z).red; at(y).l = at(z).l; at(y).r = at(z).r; if (at(y).l >= 0) at(at(y).l).p = y; if (at(y).r >= 0) at(at(y).r).p = y;
                link(at(z).p, z, y);
            }
            free.push_back(z); --n;
            if (!at(y).red && x >= 0)
            {
                while (x != root && !at(x).red)
                {
                    const int p = at(x).p; const bool left = at(p).l == x; int w = left ? at(p).r : at(p).l; if (w < 0) { x = p; continue; }
                    if (at(w).red) { at(w).red = false; at(p).red = true; rotate(p, left); w = left ? at(p).r : at(p).l; }
                    if (w < 0) { x = p; continue; }
                    const int near = left ? at(w).l : at(w).r, far = left ? at(w).r : at(w).l;
                    if (!red(near) && !red(far)) { at(w).red = true; x = p; continue; }
                    if (!red(far)) { if (near >= 0) at(near).red = false; at(w).red = true; rotate(w, !left); w = left ? at(p).r : at(p).l; }
                    at(w).red = at(p).red; at(p).red = false; const int f = left ? at(w).r : at(w).l; if (f >= 0) at(f).red = false; rotate(p, left); x = root;
                }
                at(x).red = false;
            }
            return true;
        }
        // The depth of every element, in order.
        void depths(int x, size_t d, std::vector<std::pair<int, size_t>>& out) { if (x < 0) return; depths(at(x).l, d + 1, out); out.emplace_back(at(x).v, d); depths(at(x).r, d + 1, out); }
        std::vector<std::pair<int, size_t>> depths() { std::vector<std::pair<int, size_t>> out; depths(root, 1, out); return out; }
    };
}

// Mixed insertions and removals: wherever the tree of this commit keeps the bound, it is kept.
VH_CASE(mixed, 8)
{
    c.iterate(c.n(1200, 40000), [&](uint64_t it)
    {
        S s; Known k; const unsigned how = static_cast<unsigned>(it % 8); const size_t n = c.rng.pick({ 6, 14, 30, 62, 126, 250 }), ops = n < 100 ? 300 : 1200; int next = 0; size_t worst = 0, kept = 0;
        auto add = [&](int v) { k.insert(v); s.insert(v); };
        auto del = [&](int v) { k.erase(v); s.erase(v); };
        const int grow = c.rng.pick({ 1, 2, 5 });
        for (size_t op = 0; op < ops; ++op)
        {
            const bool ins = s.size() < 2 || (s.size() < n && c.rng.below(static_cast<uint64_t>(grow) + 3) < static_cast<uint64_t>(grow) + 1);
            if (ins) { int v; switch (how) { case 0: case 1: v = next++; break; case 2: v = -next++; break; case 3: v = next % 2 ? -next : next; ++next; break; default: v = static_cast<int>(c.rng.below(4 * n)); } add(v); }
            else
            {
                const auto d = k.depths(); size_t i = c.rng.below(d.size());
                switch (how)
                {
                case 0: i = 0; break;
                case 1: i = d.size() - 1; break;
                case 2: i = c.rng.flip() ? 0 : d.size() - 1; break;
                case 4: for (size_t j = 0; j < d.size(); ++j) if (d[j].second == 1) i = j; break;
                case 5: for (size_t j = 0; j < d.size(); ++j) if (d[j].second > d[i].second) i = j; break;
                case 6: for (size_t j = 0, t = 1 + c.rng.below(3); j < d.size(); ++j) if (d[j].second == t && c.rng.flip()) i = j; break;
                default: break;
                }
                del(d[i].first);
            }
            if (s.empty() || (n > 100 && op % 7)) continue;
            size_t dk = 0; for (auto& x : k.depths()) dk = std::max(dk, x.second);
            const size_t d = max_depth(s); const double l = lg(s.size()); c.eval(); worst = std::max(worst, d);
            if (static_cast<double>(dk) <= 2.0 * l + 1.0) { ++kept; VH_CHECK(c, static_cast<double>(d) <= 2.5 * l + 1.0, "depth", "search depth %zu with %zu elements after %zu insertions and removals of kind %u: bound %.1f", d, s.size(), op + 1, how, 2.5 * l + 1.0); }
            else c.count("bound exceeded by the known defect");
        }
        c.count("depths within the bound", kept); c.distinct(vh::mix(worst * 8 + how) ^ vh::mix(kept) ^ vh::mix(s.size())); if (c.want_sample()) c.sample(vh::fmt("%zu operations of kind %u on up to %zu elements, worst depth %zu", ops, how, n, worst));
    });
}

// Work done inside each operation, in basic blocks, on trees built by insertions: logarithmic in n.
VH_CASE(operation_work, 2)
{
    c.iterate(c.n(14, 120), [&](uint64_t it)
    {
        const int n = c.rng.pick({ 4000, 12000, 20000 });
        std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = 2 * i;
        arrange(c.rng, v, it % 7);
        S s; for (int x : v) s.insert(x);
        const S& cs = s;
        uint64_t total = 0;
        const double limit = 120.0 * lg(n) + 600.0;
        auto work = [&](const char* what, auto op)
        {
            g_blocks = 0; op(); const uint64_t b = g_blocks;
            c.eval(); c.count("operations-measured"); c.distinct(vh::hash_str(what) ^ vh::mix(b) ^ vh::mix(n));
            total += b;
            VH_CHECK(c, static_cast<double>(b) <= limit, what, "%s executes %llu basic blocks on %d elements (limit %.0f)", what, static_cast<unsigned long long>(b), n, limit);
        };
        uint64_t sink = 0, total0 = total;
        for (int q = 0; q < 200; ++q)
        {
            const size_t i = q < 4 ? (q & 1 ? n - 1 : 0) : c.rng.below(n);
            const int k = static_cast<int>(2 * i);
            work("size", [&] { sink += cs.size(); });
            work("at", [&] { sink += cs.at(i); });
            work("operator[]", [&] { sink += s[i]; });
            work("find_by_index", [&] { sink += *s.find_by_index(i); });
            work("find", [&] { sink += *s.find(k); });
            work("find2", [&] { sink += std::get<1>(cs.find2(k)); });
            work("contains", [&] { sink += cs.contains(k + 1); });
            work("lower_bound", [&] { sink += cs.lower_bound(k + 1) == cs.end(); });
            work("upper_bound", [&] { sink += cs.upper_bound(k) == cs.end(); });
            work("index_of_key", [&] { sink += cs.index_of(k); });
            auto f = s.find(k);
            work("index_of_iterator", [&] { sink += s.index_of(f); });
            work("insert_duplicate", [&] { sink += s.insert(k).second; });
        }
        for (int q = 0; q < 60; ++q)
        {
            const int k = static_cast<int>(2 * c.rng.below(n) + 1);
            work("insert", [&] { sink += s.insert(k).second; });
            work("erase_key", [&] { sink += s.erase(k); });
        }
        for (int q = 0; q < 60; ++q) { auto f = s.find_by_index(c.rng.below(s.size())); work("erase_iterator", [&] { s.erase(f); }); }
        if (total == total0) throw vh::HarnessError{ "no instrumented block was executed" };
        if (c.want_sample()) c.sample(vh::fmt("work of 14 operations on %d elements, limit %.0f basic blocks, sink %llu", n, limit, static_cast<unsigned long long>(sink & 1)));
    });
}

VH_MAIN()
