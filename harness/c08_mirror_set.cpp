// C08: a mirror set equals its source after every operation, through chains, moves and any destruction order.
#include "vh.h"
#include "Awl/MirrorSet.h"

#include <algorithm>
#include <set>
#include <memory>

using vh::Case;

namespace
{
    struct Row
    {
        int k; int payload;
        bool operator==(const Row&) const = default;
    };
    struct Asc { using is_transparent = void; bool operator()(const Row& a, const Row& b) const { return a.k < b.k; } bool operator()(const Row& a, int b) const { return a.k < b; } bool operator()(int a, const Row& b) const { return a < b.k; } };
    struct Desc { using is_transparent = void; bool operator()(const Row& a, const Row& b) const { return a.k > b.k; } bool operator()(const Row& a, int b) const { return a.k > b; } bool operator()(int a, const Row& b) const { return a > b.k; } };
    // last digit first: an order unrelated to the source's
    struct Digit { static int f(int k) { return (k % 10) * 1000 + k; } bool operator()(const Row& a, const Row& b) const { return f(a.k) < f(b.k); } bool operator()(const Row& a, int b) const { return f(a.k) < f(b); } bool operator()(int a, const Row& b) const { return f(a) < f(b.k); } };

    using Src = awl::observable_set<Row, Asc>;

    struct Watch : awl::Observer<awl::INotifySetChanged<Row>>
    {
        std::map<int, int> replica; std::string bad; uint64_t events = 0;
        void OnAdded(const Row& r) override { ++events; if (!replica.emplace(r.k, r.payload).second) bad = "added twice"; }
        void OnRemoving(const Row& r) override { ++events; auto i = replica.find(r.k); if (i == replica.end() || i->second != r.payload) bad = "removed but never added"; else replica.erase(i); }
        void OnClearing() override { ++events; replica.clear(); }
    };

    // A mirror node of the forest; parent < 0: none, else index of mirror; src >= 0: reflects a source directly.
    struct INode
    {
        int src = -1; INode* parent = nullptr; bool ever = false;
        std::unique_ptr<Watch> watch;
        virtual ~INode() = default;
        virtual void reflect(const Src& s) = 0;
        virtual void reflect(INode& n) = 0;
        virtual void relocate() = 0;              // move-construct elsewhere
        virtual bool check(Case& c, const std::map<int, int>& m, const char* what, std::string& err) = 0;
        virtual void subscribe(Watch* w) = 0;
        virtual bool assign_from(INode& o) = 0;
    };

    template <class Cmp> struct Node : INode
    {
        using Mirror = awl::mirror_set<Row, Cmp>;
        std::unique_ptr<Mirror> m = std::make_unique<Mirror>();
        void reflect(const Src& s) override { m->reflect(s); }
        void reflect(INode& n) override;
        void relocate() override { auto x = std::make_unique<Mirror>(std::move(*m)); m = std::move(x); }
        void subscribe(Watch* w) override { m->Subscribe(w); }
        bool assign_from(INode& o) override { if (auto* n = dynamic_cast<Node*>(&o)) { *m = std::move(*n->m); return true; } return false; }
        bool check(Case& c, const std::map<int, int>& model, const char*, std::string& err) override
        {
            std::vector<Row> v; for (auto& e : model) v.push_back(Row{ e.first, e.second });
            Cmp cmp; std::sort(v.begin(), v.end(), cmp);
            const Mirror& cm = *m; Mirror& mm = *m;
            if (cm.size() != v.size() || cm.empty() != v.empty()) { err = vh::fmt("size %zu, source %zu", static_cast<size_t>(cm.size()), v.size()); return false; }
            size_t n = 0; for (auto& e : cm) { if (!(e == v[n])) { err = vh::fmt("element %zu is (%d,%d), should be (%d,%d)", n, e.k, e.payload, v[n].k, v[n].payload); return false; } ++n; }
            for (auto i = cm.rbegin(); i != cm.rend(); ++i) { --n; if (!(*i == v[n])) { err = "reverse iteration"; return false; } }
            if (n) { err = "reverse iteration is short"; return false; }
            if (!v.empty())
            {
                if (!(cm.front() == v.front()) || !(cm.back() == v.back())) { err = "front/back"; return false; }
                size_t p = c.rng.below(v.size()); if (!(cm[p] == v[p]) || !(cm.at(p) == v[p]) || cm.index_of(v[p].k) != p) { err = "positional access"; return false; }
                auto lb = cm.lower_bound(v[p].k); auto ub = cm.upper_bound(v[p].k); if (lb == cm.end() || !(*lb == v[p]) || (p + 1 == v.size() ? ub != cm.end() : ub == cm.end() || !(*ub == v[p + 1]))) { err = "bounds"; return false; }
            }
            const int k = static_cast<int>(c.rng.below(40)); const bool has = model.count(k);
            if (cm.contains(k) != has || (cm.find(k) != cm.end()) != has || (has && mm.find(k)->k != k)) { err = vh::fmt("find/contains of %d", k); return false; }
            if (watch && (watch->replica != model || !watch->bad.empty())) { err = "observer of the mirror: " + (watch->bad.empty() ? "its replica differs" : watch->bad); return false; }
            return true;
        }
    };
    template <class Cmp> void Node<Cmp>::reflect(INode& n)
    {
        if (auto* a = dynamic_cast<Node<Asc>*>(&n)) m->reflect(*a->m);
        else if (auto* d = dynamic_cast<Node<Desc>*>(&n)) m->reflect(*d->m);
        else if (auto* g = dynamic_cast<Node<Digit>*>(&n)) m->reflect(*g->m);
    }
}

VH_CASE(histories, 7)
{
    c.iterate(c.n(1800, 50000), [&](uint64_t)
    {
        const int ns = 2; std::vector<std::unique_ptr<Src>> src; std::vector<std::map<int, int>> model(ns);
        for (int i = 0; i < ns; ++i) src.push_back(std::make_unique<Src>());
        std::vector<std::unique_ptr<INode>> nodes; int serial = 0;
        auto root = [&](INode* n) { while (n && n->parent) n = n->parent; return n ? n->src : -1; };
        const std::map<int, int> none;
        auto model_of = [&](INode* n) -> const std::map<int, int>& { int r = root(n); return r < 0 ? none : model[r]; };
        auto orphan_src = [&](int i) { for (auto& n : nodes) if (n->src == i) n->src = -1; };
        auto orphan_kids = [&](INode* p, INode* to) { for (auto& n : nodes) if (n->parent == p) { n->parent = to; } };
        for (int op = 0; op < 50; ++op)
        {
            const char* what = "?"; const int a = static_cast<int>(c.rng.below(ns)), b = 1 - a; const int k = static_cast<int>(c.rng.below(40));
            switch (c.rng.below(18))
            {
            case 0: case 1: case 2: case 3: what = "insert"; { int p = ++serial; src[a]->insert(Row{ k, p }); model[a].emplace(k, p); } break;
            case 4: case 5: what = "erase"; src[a]->erase(k); model[a].erase(k); break;
            case 6: what = "erase first"; if (!model[a].empty()) { src[a]->erase(src[a]->begin()); model[a].erase(model[a].begin()); } break;
            case 7: what = "clear"; if (c.rng.chance(1, 3)) { src[a]->clear(); model[a].clear(); } break;
            case 8: what = "migrate"; src[a]->migrate(std::move(*src[b])); model[a] = model[b]; model[b].clear(); break;
            case 9: what = "move-construct source"; { auto n = std::make_unique<Src>(std::move(*src[a])); src[a] = std::move(n); } break;
            case 10: what = "move-assign source"; { *src[a] = std::move(*src[b]); orphan_src(a); for (auto& n : nodes) if (n->src == b) n->src = a; model[a] = model[b]; model[b].clear(); } break;
            case 11: what = "destroy source"; if (c.rng.chance(1, 2)) { src[a] = std::make_unique<Src>(); model[a].clear(); orphan_src(a); } break;
            case 12: case 13: case 14: what = "new mirror"; if (nodes.size() < 7)
            {
                std::unique_ptr<INode> n; switch (c.rng.below(3)) { case 0: n = std::make_unique<Node<Asc>>(); break; case 1: n = std::make_unique<Node<Desc>>(); break; default: n = std::make_unique<Node<Digit>>(); }
                if (c.rng.flip()) { n->watch = std::make_unique<Watch>(); n->subscribe(n->watch.get()); }
                if (!nodes.empty() && c.rng.flip()) { INode* p = c.rng.pick(nodes).get(); n->reflect(*p); n->parent = p; c.count("chained"); }
                else { n->reflect(*src[a]); n->src = a; }
                nodes.push_back(std::move(n));
            } break;
            case 15: what = "destroy mirror"; if (!nodes.empty()) { size_t i = c.rng.below(nodes.size()); orphan_kids(nodes[i].get(), nullptr); for (auto& n : nodes) (void)n; nodes.erase(nodes.begin() + i); } break;
            case 16: what = "move mirror"; if (!nodes.empty()) { c.rng.pick(nodes)->relocate(); } break;
            case 17: what = "re-reflect or assign";
                if (nodes.empty()) break;
                if (c.rng.flip()) { INode* n = c.rng.pick(nodes).get(); if (!n->parent && n->src < 0) { n->reflect(*src[a]); n->src = a; c.count("re-reflected"); } }
                else if (nodes.size() > 1)
                {
                    INode* d = c.rng.pick(nodes).get(); INode* s = c.rng.pick(nodes).get(); if (d == s) break;
                    bool anc = false; for (INode* x = s; x; x = x->parent) anc = anc || x == d; for (INode* x = d; x; x = x->parent) anc = anc || x == s; if (anc) break; // related mirrors: not a meaningful assignment
                    if (d->assign_from(*s))
                    {
                        what = "move-assign mirror"; c.count("mirror assigned");
                        orphan_kids(d, nullptr); if (d->watch) { VH_CHECK(c, !d->watch->IsSubscribed(), "watch", "observer of an overwritten mirror is still subscribed"); d->watch.reset(); }
                        orphan_kids(s, d); d->src = s->src; d->parent = s->parent; d->watch = std::move(s->watch); s->src = -1; s->parent = nullptr;
                    }
                }
                break;
            }
            uint64_t h = vh::hash_str(what);
            for (int i = 0; i < ns; ++i)
            {
                VH_CHECK(c, src[i]->size() == model[i].size(), "source", "%s: the source itself has %zu elements, model %zu", what, static_cast<size_t>(src[i]->size()), model[i].size());
                auto e = model[i].begin(); for (auto& r : *src[i]) { VH_CHECK(c, r.k == e->first && r.payload == e->second, "source", "%s: the source itself differs from the model", what); ++e; }
                for (auto& x : model[i]) h = vh::mix(h ^ x.first);
            }
            for (auto& n : nodes)
            {
                std::string err; VH_CHECK(c, n->check(c, model_of(n.get()), what, err), "mirror-differs", "%s: %s", what, err.c_str());
                const bool should = n->src >= 0 || n->parent; (void)should; h = vh::mix(h ^ static_cast<uint64_t>(n->src + 3) ^ (n->parent ? 77 : 0)); c.count("mirror comparisons");
            }
            c.eval(); c.count(what); c.distinct(h);
        }
        if (c.want_sample()) c.sample(vh::fmt("2 sources of %zu and %zu elements, %zu mirrors", model[0].size(), model[1].size(), nodes.size()));
        while (!nodes.empty() || !src.empty())
        {
            if (!nodes.empty() && (src.empty() || c.rng.flip())) { size_t i = c.rng.below(nodes.size()); orphan_kids(nodes[i].get(), nullptr); nodes.erase(nodes.begin() + i); }
            else { size_t i = c.rng.below(src.size()); src.erase(src.begin() + i); for (auto& n : nodes) if (n->src == static_cast<int>(i)) n->src = -1; else if (n->src > static_cast<int>(i)) --n->src; model.erase(model.begin() + i); }
            for (auto& n : nodes) { std::string err; VH_CHECK(c, n->check(c, model_of(n.get()), "teardown", err), "mirror-differs", "teardown: %s", err.c_str()); }
        }
    });
}

namespace
{
    // an order and an allocator that carry state: x * mul modulo a prime
    struct Twist { int mul = 1; bool operator()(int a, int b) const { return f(a) < f(b); } int f(int x) const { return x * mul % 101; } };
    template <class T> struct Tagged
    {
        using value_type = T; int tag = 0;
        Tagged() = default; explicit Tagged(int t) : tag(t) {}
        template <class U> Tagged(const Tagged<U>& o) : tag(o.tag) {}
        T* allocate(size_t n) { return std::allocator<T>().allocate(n); }
        void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
        template <class U> bool operator==(const Tagged<U>& o) const { return tag == o.tag; }
    };
    template <class S> std::string same(const S& s, const std::set<int>& model, int mul, int tag)
    {
        if (s.value_comp().mul != mul || s.key_comp().mul != mul) return vh::fmt("its comparer has lost its state: %d instead of %d", s.value_comp().mul, mul);
        if (s.get_allocator().tag != tag) return vh::fmt("its allocator has lost its state: %d instead of %d", s.get_allocator().tag, tag);
        std::vector<int> v(model.begin(), model.end()); std::sort(v.begin(), v.end(), Twist{ mul });
        if (s.size() != v.size()) return vh::fmt("%zu elements, should be %zu", static_cast<size_t>(s.size()), v.size());
        size_t n = 0; for (int x : s) if (x != v[n++]) return vh::fmt("element %zu is %d, should be %d", n - 1, x, v[n - 1]);
        for (size_t i = 0; i < v.size(); ++i) if (s[i] != v[i] || s.index_of(v[i]) != i || s.find(v[i]) == s.end()) return vh::fmt("position %zu", i);
        return "";
    }
}

// a mirror's own comparer and allocator are the ones it was given, and travel with it
VH_CASE(stateful, 2)
{
    using Src2 = awl::observable_set<int>; using Mirror = awl::mirror_set<int, Twist, Tagged<int>>;
    c.iterate(c.n(1500, 40000), [&](uint64_t)
    {
        auto src = std::make_unique<Src2>(); std::set<int> model;
        struct One { std::unique_ptr<Mirror> m; int mul, tag; };
        std::vector<One> ms;
        for (int op = 0; op < 60; ++op)
        {
            const int k = static_cast<int>(c.rng.below(101)); const char* w = "?";
            switch (c.rng.below(14))
            {
            default: w = "insert"; src->insert(k); model.insert(k); break;
            case 6: case 7: w = "erase"; src->erase(k); model.erase(k); break;
            case 8: w = "new mirror"; if (ms.size() < 4) { One o; o.mul = 1 + static_cast<int>(c.rng.below(100)); o.tag = static_cast<int>(c.rng.below(9)); if (c.rng.flip()) o.m = std::make_unique<Mirror>(Twist{ o.mul }, Tagged<int>(o.tag)); else { o.tag = 0; o.m = std::make_unique<Mirror>(Twist{ o.mul }); } if (!ms.empty() && c.rng.flip()) o.m->reflect(*c.rng.pick(ms).m); else o.m->reflect(*src); ms.push_back(std::move(o)); } break;
            case 9: w = "move mirror"; if (!ms.empty()) { One& o = c.rng.pick(ms); auto n = std::make_unique<Mirror>(std::move(*o.m)); VH_CHECK(c, o.m->empty() && !o.m->IsSubscribed(), "moved-from", "a moved-from mirror is not empty or still subscribed"); o.m = std::move(n); } break;
            case 10: w = "assign to a new mirror"; if (!ms.empty()) { One& o = c.rng.pick(ms); auto n = std::make_unique<Mirror>(Twist{ 3 }, Tagged<int>(77)); *n = std::move(*o.m); o.m = std::move(n); } break;
            case 11: w = "clear"; if (c.rng.chance(1, 4)) { src->clear(); model.clear(); } break;
            case 12: w = "move source"; { auto n = std::make_unique<Src2>(std::move(*src)); src = std::move(n); } break;
            case 13: w = "start over"; if (c.rng.chance(1, 6)) { if (c.rng.flip()) { src = std::make_unique<Src2>(); model.clear(); for (auto& o : ms) VH_CHECK(c, o.m->empty(), "destroyed-source", "a mirror is not empty after its source was destroyed"); ms.clear(); } else ms.clear(); } break;
            }
            for (auto& o : ms) { const std::string e = same(*o.m, model, o.mul, o.tag); VH_CHECK(c, e.empty(), "stateful", "%s: %s", w, e.c_str()); for (auto& q : ms) VH_CHECK(c, !(o.mul == q.mul) || ((*o.m == *q.m) && !(*o.m != *q.m)), "equality", "%s: two mirrors of one set differ", w); }
            c.eval(); c.count(w); c.distinct(vh::mix(vh::hash_str(w) ^ model.size() * 131 ^ ms.size()));
        }
        if (c.want_sample()) c.sample(vh::fmt("%zu elements, %zu mirrors", model.size(), ms.size()));
    });
}

// Thousands of elements, announced and mirrored through a chain.
VH_CASE(large, 1)
{
    c.iterate(c.n(6, 60), [&](uint64_t)
    {
        auto src = std::make_unique<Src>(); std::map<int, int> model; awl::mirror_set<Row, Desc> early; awl::mirror_set<Row, Digit> chained; Watch w; early.reflect(*src); chained.reflect(early); chained.Subscribe(&w);
        const int n = 500 + static_cast<int>(c.rng.below(4000)); int serial = 0;
        auto same = [&](const auto& m, const char* what) { VH_CHECK(c, m.size() == model.size(), "mirror-differs", "%s: %zu elements, source %zu", what, static_cast<size_t>(m.size()), model.size()); for (auto& r : m) { auto i = model.find(r.k); VH_CHECK(c, i != model.end() && i->second == r.payload, "mirror-differs", "%s: element %d", what, r.k); } size_t k = 0; auto cmp = m.value_comp(); const Row* prev = nullptr; for (auto& r : m) { VH_CHECK(c, !prev || cmp(*prev, r), "mirror-differs", "%s: order at %zu", what, k); prev = &r; ++k; } };
        for (int phase = 0; phase < 5; ++phase)
        {
            const char* what = "?";
            switch (phase == 0 ? 0 : c.rng.below(5))
            {
            case 0: what = "insert"; for (int i = 0; i < n; ++i) { const int k = static_cast<int>(c.rng.below(100000)); src->insert(Row{ k, ++serial }); model.emplace(k, serial); } break;
            case 1: what = "erase"; for (auto i = model.begin(); i != model.end();) if (c.rng.chance(2, 3)) { src->erase(i->first); i = model.erase(i); } else ++i; break;
            case 2: what = "clear"; src->clear(); model.clear(); break;
            case 3: what = "migrate"; { Src other; std::map<int, int> om; for (int i = 0; i < n; ++i) { const int k = static_cast<int>(c.rng.below(100000)); other.insert(Row{ k, ++serial }); om.emplace(k, serial); } src->migrate(std::move(other)); model = om; } break;
            default: what = "move"; { auto m = std::make_unique<Src>(std::move(*src)); src = std::move(m); } break;
            }
            same(*src, "source"); same(early, what); same(chained, what); awl::mirror_set<Row, Asc> late; late.reflect(chained); same(late, what);
            VH_CHECK(c, w.replica == model && w.bad.empty(), "mirror-differs", "%s: observer of the chained mirror: %s", what, w.bad.c_str());
            c.eval(); c.count("large comparisons", model.size()); c.distinct(vh::mix(model.size() * 8 + static_cast<size_t>(phase)));
        }
        src.reset(); VH_CHECK(c, early.empty() && chained.empty() && w.replica.empty(), "mirror-differs", "the source is gone, but a mirror is not empty");
    });
}

VH_MAIN()
