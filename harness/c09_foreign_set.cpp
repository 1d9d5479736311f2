// C09: a foreign_set groups its source by foreign key exactly, after every operation.
#include "vh.h"
#include "Awl/ForeignSet.h"
#include "Awl/MirrorSet.h"

#include <algorithm>

using vh::Case;

namespace
{
    struct A { int id; int fk; std::string text; A(int i, int f) : id(i), fk(f), text(vh::fmt("row %d of group %d, long enough for the heap", i, f)) {} };
    struct Pk { int operator()(const A& a) const { return a.id; } };
    struct Fk { int operator()(const A& a) const { return a.fk; } };
    int g_order; // the source's own order, unrelated to the primary key order of the groups: ascending, descending, scrambled
    struct ById
    {
        static long rank(int id) { return g_order == 0 ? id : g_order == 1 ? -long(id) : long((unsigned(id) * 2654435761u) ^ (unsigned(id) * 40503u)); }
        using is_transparent = void;
        template <class X> static int id(const X& x) { if constexpr (std::is_same_v<X, int>) return x; else if constexpr (std::is_same_v<X, A>) return x.id; else return x->id; }
        template <class X, class Y> bool operator()(const X& x, const Y& y) const { return rank(id(x)) < rank(id(y)); }
    };
    inline const A& row(const A& a) { return a; }
    template <class P> const A& row(const P& p) { return *p; }

    template <class T> struct Maker;
    template <> struct Maker<A> { static A make(int i, int f) { return A(i, f); } };
    template <> struct Maker<std::shared_ptr<A>> { static std::shared_ptr<A> make(int i, int f) { return std::make_shared<A>(i, f); } };
    template <> struct Maker<std::unique_ptr<A>> { static std::unique_ptr<A> make(int i, int f) { return std::make_unique<A>(i, f); } };
    std::vector<std::unique_ptr<A>>* g_arena;
    template <> struct Maker<const A*> { static const A* make(int i, int f) { g_arena->push_back(std::make_unique<A>(i, f)); return g_arena->back().get(); } };

    template <class T> const A* addr(const T& t) { return &row(t); }

    using Model = std::map<int, std::map<int, const A*>>; // fk -> id -> address of the source's element

    template <class T> using Source = awl::observable_set<T, ById>;
    template <class T> using Foreign = awl::foreign_set<T, Pk, Fk>;

    template <class T> struct Watch : awl::Observer<awl::INotifySetChanged<typename Foreign<T>::value_type>>
    {
        using VS = typename Foreign<T>::value_type;
        std::map<int, int> groups; std::vector<std::pair<char, int>> log; std::string bad;
        int fk(const VS& v) { if (v.empty()) { bad = "an empty group was announced"; return -1; } return v.front()->fk; }
        void OnAdded(const VS& v) override { int f = fk(v); log.push_back({ 'a', f }); if (v.size() == 0 || !groups.emplace(f, 1).second) bad = "group announced as added twice"; }
        void OnRemoving(const VS& v) override { int f = fk(v); log.push_back({ 'r', f }); if (!groups.erase(f)) bad = "group announced as removed but never added"; }
        void OnClearing() override { log.push_back({ 'c', 0 }); groups.clear(); }
    };

    template <class T> void check(Case& c, const Foreign<T>& f, const Model& m, const char* what)
    {
        VH_CHECK(c, f.size() == m.size() && f.empty() == m.empty(), "groups", "%s: %zu groups, expected %zu", what, static_cast<size_t>(f.size()), m.size());
        auto g = m.begin(); size_t pos = 0;
        for (auto& vs : f)
        {
            VH_CHECK(c, !vs.empty(), "empty-group", "%s: an empty group", what);
            VH_CHECK(c, g != m.end() && vs.front()->fk == g->first, "group-key", "%s: group %zu has key %d, expected %d", what, pos, vs.front()->fk, g == m.end() ? -1 : g->first);
            VH_CHECK(c, vs.size() == g->second.size(), "group-content", "%s: group %d has %zu members, expected %zu", what, g->first, static_cast<size_t>(vs.size()), g->second.size());
            auto e = g->second.begin();
            for (auto& p : vs) { VH_CHECK(c, e != g->second.end() && &*p == e->second, "group-content", "%s: group %d holds another element than the source", what, g->first); VH_CHECK(c, p->id == e->first && p->fk == g->first, "group-content", "%s: id %d in group %d", what, p->id, g->first); ++e; }
            VH_CHECK(c, e == g->second.end(), "group-content", "%s: group %d is short", what, g->first);
            VH_CHECK(c, f.index_of(g->first) == pos && &f[pos] == &vs && &f.at(pos) == &vs, "position", "%s: position of group %d", what, g->first);
            auto i = f.find(g->first); VH_CHECK(c, i != f.end() && &*i == &vs, "find", "%s: find group %d", what, g->first);
            ++g; ++pos;
        }
        VH_CHECK(c, g == m.end(), "groups", "%s: group %d is missing", what, g == m.end() ? 0 : g->first);
        for (auto i = f.rbegin(); i != f.rend(); ++i) { --pos; VH_CHECK(c, &*i == &f[pos], "position", "%s: reverse iteration", what); }
        if (!m.empty()) VH_CHECK(c, f.front().front()->fk == m.begin()->first && f.back().front()->fk == m.rbegin()->first, "position", "%s: front/back", what);
        const int k = static_cast<int>(c.rng.range(-1, 8)); VH_CHECK(c, (f.find(k) != f.end()) == (m.count(k) != 0), "find", "%s: find of group %d", what, k);
    }

    template <class T> void history(Case& c, bool via_mirror)
    {
        std::vector<std::unique_ptr<A>> arena; g_arena = &arena; g_order = static_cast<int>(c.rng.below(3));
        auto src = std::make_unique<Source<T>>(); std::map<int, int> rows; // id -> fk
        auto other = std::make_unique<Source<T>>(); std::map<int, int> other_rows;
        const int fks = static_cast<int>(c.rng.pick({ 1, 2, 6 })), ids = static_cast<int>(c.rng.pick({ 3, 10, 40 }));
        auto add = [&](Source<T>& s, std::map<int, int>& m) { int id = static_cast<int>(c.rng.below(ids)), f = static_cast<int>(c.rng.below(fks)); s.insert(Maker<T>::make(id, f)); m.emplace(id, f); };
        for (size_t i = c.rng.below(12); i; --i) add(*src, rows);
        constexpr bool can_mirror = std::is_copy_constructible_v<T> && !std::is_same_v<T, A>;
        using Mirror = awl::mirror_set<std::conditional_t<can_mirror, T, int>, std::conditional_t<can_mirror, ById, std::less<>>>;
        std::unique_ptr<Mirror> mirror;
        if constexpr (can_mirror) if (via_mirror) { mirror = std::make_unique<Mirror>(); mirror->reflect(*src); }
        auto make_foreign = [&]() -> std::unique_ptr<Foreign<T>> { if constexpr (can_mirror) if (mirror) return std::make_unique<Foreign<T>>(*mirror); return std::make_unique<Foreign<T>>(*src); };
        auto model = [&]() { Model m; for (auto& e : *src) m[row(e).fk][row(e).id] = addr(e); return m; };
        struct F { std::unique_ptr<Foreign<T>> f; std::unique_ptr<Watch<T>> w; bool attached = true; };
        std::vector<F> fs;
        for (int op = 0; op < 60; ++op)
        {
            Model before = model(); std::vector<size_t> mark; for (auto& x : fs) { mark.push_back(x.w ? x.w->log.size() : 0); }
            const char* what = "?"; bool newf = false;
            switch (c.rng.below(15))
            {
            case 0: case 1: case 2: case 3: what = "insert"; add(*src, rows); break;
            case 4: case 5: what = "erase"; { int id = static_cast<int>(c.rng.below(ids)); src->erase(id); rows.erase(id); } break;
            case 6: what = "drain a group"; { int f = static_cast<int>(c.rng.below(fks)); std::vector<int> d; for (auto& r : rows) if (r.second == f) d.push_back(r.first); c.rng.shuffle(d); for (int id : d) { src->erase(id); rows.erase(id); } } break;
            case 7: what = "clear"; if (c.rng.chance(1, 3)) { src->clear(); rows.clear(); } break;
            case 8: what = "new foreign set"; if (fs.size() < 3) { fs.push_back({ make_foreign(), nullptr, true }); if (c.rng.chance(2, 3)) { fs.back().w = std::make_unique<Watch<T>>(); for (auto& g : before) fs.back().w->groups[g.first] = 1; fs.back().f->Subscribe(fs.back().w.get()); } newf = true; } break;
            case 9: what = "destroy foreign set"; if (!fs.empty()) { size_t i = c.rng.below(fs.size()); fs.erase(fs.begin() + i); newf = true; } break;
            case 10: what = "move source"; { auto n = std::make_unique<Source<T>>(std::move(*src)); src = std::move(n); } break;
            case 11: what = "migrate"; for (size_t i = c.rng.below(6); i; --i) add(*other, other_rows); src->migrate(std::move(*other)); rows = other_rows; other_rows.clear(); break;
            case 12: what = "move foreign set"; if (!fs.empty()) { auto& x = c.rng.pick(fs); auto n = std::make_unique<Foreign<T>>(std::move(*x.f)); x.f = std::move(n); } break;
            case 13: what = "destroy source"; if (c.rng.chance(1, 4)) { mirror.reset(); src = std::make_unique<Source<T>>(); rows.clear(); for (auto& x : fs) { x.attached = false; check<T>(c, *x.f, {}, what); VH_CHECK(c, !x.f->IsSubscribed(), "subscribed", "foreign set is subscribed to a destroyed source"); } for (auto& x : fs) if (x.w) VH_CHECK(c, x.w->groups.empty() && x.w->bad.empty(), "announcements", "destroyed source: the observer's groups are %zu", x.w->groups.size()); fs.clear(); newf = true; } break;
            default: what = "unsubscribe observer"; if (!fs.empty() && c.rng.chance(1, 3)) { auto& x = c.rng.pick(fs); if (x.w) { x.f->Unsubscribe(x.w.get()); x.w.reset(); } newf = true; } break;
            }
            VH_CHECK(c, src->size() == rows.size(), "source", "the source itself has %zu rows, model %zu", static_cast<size_t>(src->size()), rows.size());
            Model m = model(); uint64_t h = vh::hash_str(what);
            for (auto& g : m) h = vh::mix(h ^ (g.first * 64 + g.second.size()));
            for (size_t i = 0; i < fs.size(); ++i)
            {
                auto& x = fs[i]; check<T>(c, *x.f, m, what); c.count("group comparisons", m.size());
                if (x.w)
                {
                    VH_CHECK(c, x.w->bad.empty(), "announcements", "%s: %s", what, x.w->bad.c_str());
                    VH_CHECK(c, x.w->groups.size() == m.size(), "announcements", "%s: replaying announcements gives %zu groups, expected %zu", what, x.w->groups.size(), m.size());
                    for (auto& g : m) VH_CHECK(c, x.w->groups.count(g.first), "announcements", "%s: group %d was not announced", what, g.first);
                    if (!newf && !strcmp(what, "insert")) { size_t d = 0; for (auto& g : m) d += !before.count(g.first); VH_CHECK(c, x.w->log.size() - mark[i] == d, "announcements", "insert made %zu announcements, expected %zu", x.w->log.size() - mark[i], d); }
                    if (!newf && !strcmp(what, "erase")) { size_t d = 0; for (auto& g : before) d += !m.count(g.first); VH_CHECK(c, x.w->log.size() - mark[i] == d, "announcements", "erase made %zu announcements, expected %zu", x.w->log.size() - mark[i], d); }
                    c.count("announcements", x.w->log.size() - (newf ? x.w->log.size() : mark[i]));
                }
            }
            c.eval(); c.count(what); c.distinct(h);
        }
        if (c.want_sample()) c.sample(vh::fmt("source of %zu rows in up to %d groups, %zu foreign sets", rows.size(), fks, fs.size()));
        if (c.rng.flip()) { fs.clear(); } else { mirror.reset(); src.reset(); for (auto& x : fs) { check<T>(c, *x.f, {}, "teardown"); } }
    }
}

VH_CASE(values, 3) { c.iterate(c.n(700, 20000), [&](uint64_t) { history<A>(c, false); }); }
VH_CASE(shared_pointers, 2) { c.iterate(c.n(500, 15000), [&](uint64_t) { history<std::shared_ptr<A>>(c, c.rng.chance(1, 3)); }); }
VH_CASE(unique_pointers, 2) { c.iterate(c.n(500, 15000), [&](uint64_t) { history<std::unique_ptr<A>>(c, false); }); }
VH_CASE(raw_pointers, 2) { c.iterate(c.n(500, 15000), [&](uint64_t) { history<const A*>(c, c.rng.chance(1, 3)); }); }

namespace
{
    struct NPk { int mul = 1; int operator()(int v) const { return v * mul % 1009; } };
    struct NFk { int mod = 2; int operator()(int v) const { return v % mod; } };
}

// key getters that carry state: the ones given to the constructor are used everywhere and travel with the set
VH_CASE(stateful, 2)
{
    using Src = awl::observable_set<int>; using F = awl::foreign_set<int, NPk, NFk>;
    c.iterate(c.n(1500, 40000), [&](uint64_t)
    {
        auto src = std::make_unique<Src>(); struct One { std::unique_ptr<F> f; int mul, mod; }; std::vector<One> fs;
        for (int op = 0; op < 50; ++op)
        {
            const char* w = "?"; const int k = static_cast<int>(c.rng.below(60));
            switch (c.rng.below(12))
            {
            default: w = "insert"; src->insert(k); break;
            case 5: case 6: case 7: w = "erase"; src->erase(k); break;
            case 8: w = "clear"; if (c.rng.chance(1, 4)) src->clear(); break;
            case 9: w = "new"; if (fs.size() < 3) { One o; o.mul = 1 + static_cast<int>(c.rng.below(1008)); o.mod = 1 + static_cast<int>(c.rng.below(9)); o.f = std::make_unique<F>(*src, NPk{ o.mul }, NFk{ o.mod }); fs.push_back(std::move(o)); } break;
            case 10: w = "move"; if (!fs.empty()) { One& o = c.rng.pick(fs); auto n = std::make_unique<F>(std::move(*o.f)); o.f = std::move(n); } break;
            case 11: w = "drain"; { const int mod = 1 + static_cast<int>(c.rng.below(9)), r = static_cast<int>(c.rng.below(mod)); std::vector<int> d; for (int x : *src) if (x % mod == r) d.push_back(x); c.rng.shuffle(d); for (int x : d) src->erase(x); } break;
            }
            for (auto& o : fs)
            {
                std::map<int, std::map<int, const int*>> m; for (const int& x : *src) m[x % o.mod][NPk{ o.mul }(x)] = &x;
                VH_CHECK(c, o.f->size() == m.size(), "groups", "%s: %zu groups, expected %zu", w, static_cast<size_t>(o.f->size()), m.size());
                auto g = m.begin();
                for (auto& vs : *o.f)
                {
                    VH_CHECK(c, vs.size() == g->second.size(), "group-content", "%s: group %d has %zu members, expected %zu", w, g->first, static_cast<size_t>(vs.size()), g->second.size());
                    auto e = g->second.begin();
                    for (auto& p : vs) { VH_CHECK(c, p == e->second, "group-content", "%s: group %d: a wrong element or order", w, g->first); ++e; }
                    auto i = o.f->find(g->first); VH_CHECK(c, i != o.f->end() && &*i == &vs, "find", "%s: find group %d", w, g->first);
                    for (auto& e2 : g->second) VH_CHECK(c, vs.find(e2.first) != vs.end() && *vs.find(e2.first) == e2.second, "find", "%s: find of primary key %d in group %d", w, e2.first, g->first);
                    ++g;
                }
            }
            c.eval(); c.count(w); c.distinct(vh::mix(vh::hash_str(w) ^ src->size() * 131 ^ fs.size()));
        }
        if (c.want_sample()) c.sample(vh::fmt("%zu rows, %zu foreign sets", static_cast<size_t>(src->size()), fs.size()));
        if (c.rng.flip()) src.reset();
    });
}

VH_MAIN()
