// C05: intrusive lists against vectors of pointers.
#include "vh.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"

#include <algorithm>

using vh::Case;

namespace
{
    AWL_DECLARE_QUICK_LINK(link_b)
    AWL_DECLARE_MOVABLE_LINK(link_m)
    struct mv_only {};

    struct Elem : public awl::quick_link, public link_b, public awl::single_link
    {
        explicit Elem(int i) : id(i) {}
        int id; int guard = 0x5a5a5a5a;
    };

    struct MElem : public link_m
    {
        explicit MElem(int i) : id(i) {}
        MElem(MElem&& o) = default;
        MElem& operator=(MElem&& o) = default;
        int id;
    };

    template <class E, class L>
    void check(Case& c, L& l, const std::vector<E*>& m, const char* w)
    {
        const L& cl = l; const size_t n = m.size();
        VH_CHECK(c, l.empty() == (n == 0) && cl.size() == n, "size", "%s: size %zu, model %zu", w, cl.size(), n);
        VH_CHECK(c, l.contains_one() == (n == 1) && l.empty_or_contains_one() == (n <= 1), "contains-one", "%s: contains_one/empty_or_contains_one for %zu elements", w, n);
        size_t k = 0;
        for (E* e : l) { VH_CHECK(c, k < n && e == m[k], "forward", "%s: forward walk differs at %zu of %zu", w, k, n); ++k; }
        VH_CHECK(c, k == n, "forward", "%s: forward walk yields %zu of %zu", w, k, n);
        k = 0; for (const E* e : cl) { VH_CHECK(c, k < n && e == m[k], "forward", "%s: const forward walk", w); ++k; }
        k = n; for (auto i = l.rbegin(); i != l.rend(); ++i) { VH_CHECK(c, k > 0 && *i == m[k - 1], "backward", "%s: backward walk differs at %zu of %zu", w, k, n); --k; }
        VH_CHECK(c, k == 0, "backward", "%s: backward walk stops %zu early", w, k);
        k = n; for (auto i = cl.rbegin(); i != cl.rend(); ++i) { VH_CHECK(c, k > 0 && *i == m[k - 1], "backward", "%s: const backward walk", w); --k; }
        if (n)
        {
            VH_CHECK(c, l.front() == m[0] && l.back() == m[n - 1] && cl.front() == m[0] && cl.back() == m[n - 1], "front-back", "%s: front/back", w);
            auto i = l.end(); for (k = n; k > 0; --k) { --i; VH_CHECK(c, *i == m[k - 1], "decrement", "%s: walking back from end() at %zu", w, k); }
            VH_CHECK(c, i == l.begin(), "decrement", "%s: walking back does not reach begin()", w);
            auto r = l.rend(); for (k = 0; k < n; ++k) { auto o = r--; VH_CHECK(c, *r == m[k] && o != r && !(o == r), "decrement", "%s: walking from rend() at %zu", w, k); } VH_CHECK(c, r == l.rbegin(), "decrement", "%s: walking does not reach rbegin()", w);
            auto ce = cl.end(); for (k = n; k > 0; --k) { ce--; VH_CHECK(c, *ce == m[k - 1], "decrement", "%s: walking back from a const end() at %zu", w, k); }
        }
    }

    uint64_t hm(const std::vector<Elem*>& a) { uint64_t h = vh::mix(a.size()); for (auto e : a) h = vh::mix(h ^ e->id); return h; }
}

// Two lists per link; every element may be in one list of each link at the same time.
VH_CASE(histories, 6)
{
    c.iterate(c.n(1500, 30000), [&](uint64_t)
    {
        const size_t ne = 2 + c.rng.below(10);
        std::vector<std::unique_ptr<Elem>> el; for (size_t i = 0; i < ne; ++i) el.push_back(std::make_unique<Elem>(static_cast<int>(i)));
        awl::quick_list<Elem> la[3]; awl::quick_list<Elem, link_b> lb[3]; awl::single_list<Elem> ls[2];
        std::vector<Elem*> ma[3], mb[3], ms[2];
        auto in = [](std::vector<Elem*>* m, Elem* e) { for (int i = 0; i < 3; ++i) if (std::find(m[i].begin(), m[i].end(), e) != m[i].end()) return i; return -1; };
        auto one = [&](auto& l, auto& m, auto link_of, const char* tag) -> const char*
        {
            using L = std::remove_reference_t<decltype(l[0])>;
            const int a = static_cast<int>(c.rng.below(3)), b = static_cast<int>(c.rng.below(3));
            Elem* e = el[c.rng.below(ne)].get(); const int where = in(m, e);
            const char* w = "?";
            switch (c.rng.below(15))
            {
            case 0: w = "push_front"; if (where < 0) { l[a].push_front(e); m[a].insert(m[a].begin(), e); } break;
            case 1: case 2: w = "push_back"; if (where < 0) { l[a].push_back(e); m[a].push_back(e); } break;
            case 3: w = "pop_front"; if (!m[a].empty()) { Elem* p = l[a].pop_front(); VH_CHECK(c, p == m[a].front(), "pop-result", "pop_front returns another element"); m[a].erase(m[a].begin()); } break;
            case 4: w = "pop_back"; if (!m[a].empty()) { Elem* p = l[a].pop_back(); VH_CHECK(c, p == m[a].back(), "pop-result", "pop_back returns another element"); m[a].pop_back(); } break;
            case 5: w = "insert after an iterator"; if (where < 0 && !m[a].empty()) { size_t i = c.rng.below(m[a].size()); auto it = l[a].begin(); for (size_t k = 0; k < i; ++k) ++it; L::insert(it, e); m[a].insert(m[a].begin() + i + 1, e); } break;
            case 6: w = "insert at a reverse iterator"; if (where < 0 && !m[a].empty()) { size_t i = c.rng.below(m[a].size()); auto it = l[a].rbegin(); for (size_t k = 0; k < i; ++k) it++; const size_t pos = m[a].size() - 1 - i; L::insert(it, e); m[a].insert(m[a].begin() + pos, e); } break;
            case 7: w = "erase(element)"; if (where >= 0) { L::erase(e); m[where].erase(std::find(m[where].begin(), m[where].end(), e)); } break;
            case 8: w = "erase(iterator)"; if (!m[a].empty()) { size_t i = c.rng.below(m[a].size()); auto it = l[a].begin(); for (size_t k = 0; k < i; ++k) it++; L::erase(it); m[a].erase(m[a].begin() + i); } break;
            case 9: w = "erase(reverse iterator)"; if (!m[a].empty()) { size_t i = c.rng.below(m[a].size()); auto it = l[a].rbegin(); for (size_t k = 0; k < i; ++k) ++it; L::erase(it); m[a].erase(m[a].end() - 1 - i); } break;
            case 10: w = "exclude"; if (where >= 0) { if (c.rng.flip()) link_of(e)->exclude(); else link_of(e)->safe_exclude(); m[where].erase(std::find(m[where].begin(), m[where].end(), e)); } else link_of(e)->safe_exclude(); break;
            case 11: w = "append list"; if (a != b) { if (c.rng.flip()) { l[a].push_back(l[b]); m[a].insert(m[a].end(), m[b].begin(), m[b].end()); } else { w = "prepend list"; l[a].push_front(l[b]); m[a].insert(m[a].begin(), m[b].begin(), m[b].end()); } m[b].clear(); } break;
            case 12: w = "move construction"; { L t(std::move(l[a])); VH_CHECK(c, l[a].empty() && l[a].size() == 0, "moved-from", "moved-from list is not empty"); check(c, t, m[a], w); if (where < 0) { l[a].push_back(e); L::erase(e); } l[a] = std::move(t); VH_CHECK(c, t.empty(), "moved-from", "moved-from list is not empty"); } break;
            case 13: w = "move assignment"; if (c.rng.chance(1, 4)) { w = "self-move"; L& self = l[b]; self = std::move(l[b]); } else if (c.rng.chance(1, 6) && where < 0) { w = "clear"; L t{ e }; std::vector<Elem*> one{ e }; check(c, t, one, "initializer list"); t.clear(); check(c, t, std::vector<Elem*>(), w); t.push_back(e); check(c, t, one, "push after clear"); t.pop_back(); } else if (a != b && m[a].empty()) { l[a] = std::move(l[b]); m[a] = m[b]; m[b].clear(); } break;
            default: w = "insert next to an element"; if (where < 0 && !m[a].empty()) { size_t i = c.rng.below(m[a].size()); if (c.rng.flip()) { link_of(m[a][i])->insert_after(link_of(e)); m[a].insert(m[a].begin() + i + 1, e); } else { link_of(m[a][i])->insert_before(link_of(e)); m[a].insert(m[a].begin() + i, e); } } break;
            }
            for (int i = 0; i < 3; ++i) check(c, l[i], m[i], w);
            for (auto& x : el)
            {
                const int at = in(m, x.get());
                VH_CHECK(c, link_of(x.get())->included() == (at >= 0), "included", "%s %s: included() is wrong for element %d", tag, w, x->id);
                if (at >= 0)
                {
                    size_t p = std::find(m[at].begin(), m[at].end(), x.get()) - m[at].begin();
                    if (p + 1 < m[at].size()) VH_CHECK(c, link_of(x.get())->successor() == link_of(m[at][p + 1]), "successor", "%s: successor of element %d", w, x->id);
                    if (p > 0) VH_CHECK(c, link_of(x.get())->predecessor() == link_of(m[at][p - 1]), "predecessor", "%s: predecessor of element %d", w, x->id);
                }
                VH_CHECK(c, x->guard == 0x5a5a5a5a, "payload", "element payload damaged");
            }
            return w;
        };
        for (int op = 0; op < 60; ++op)
        {
            const char* w;
            switch (c.rng.below(5))
            {
            case 0: case 1: w = one(la, ma, [](Elem* e) { return static_cast<awl::quick_link*>(e); }, "A"); break;
            case 2: case 3: w = one(lb, mb, [](Elem* e) { return static_cast<link_b*>(e); }, "B"); break;
            default:
            {
                const int a = static_cast<int>(c.rng.below(2)); Elem* e = el[c.rng.below(ne)].get();
                const bool there = std::find(ms[0].begin(), ms[0].end(), e) != ms[0].end() || std::find(ms[1].begin(), ms[1].end(), e) != ms[1].end();
                w = "single list";
                if (!there && c.rng.chance(2, 3)) { ls[a].push_front(e); ms[a].insert(ms[a].begin(), e); }
                else if (!ms[a].empty()) { Elem* p = ls[a].pop_front(); VH_CHECK(c, p == ms[a][0], "pop-result", "single list pop_front"); ms[a].erase(ms[a].begin()); }
                for (int q = 0; q < 2; ++q)
                {
                    size_t k = 0; for (Elem* x : ls[q]) { VH_CHECK(c, k < ms[q].size() && x == ms[q][k], "single-walk", "single list walk"); ++k; }
                    const auto& cl = ls[q]; size_t k2 = 0; for (const Elem* x : cl) { VH_CHECK(c, x == ms[q][k2], "single-walk", "single list walk"); ++k2; }
                    VH_CHECK(c, k == ms[q].size() && k2 == k && ls[q].size() == k && ls[q].empty() == (k == 0) && ls[q].contains_one() == (k == 1) && ls[q].empty_or_contains_one() == (k <= 1) && (k == 0 || ls[q].front() == ms[q][0]), "single-size", "single list size");
                }
                for (auto& x : el) { const bool t = std::find(ms[0].begin(), ms[0].end(), x.get()) != ms[0].end() || std::find(ms[1].begin(), ms[1].end(), x.get()) != ms[1].end(); VH_CHECK(c, x->single_link::included() == t, "included", "single link included()"); }
            }
            }
            // operations on one link never disturb the other lists
            for (int i = 0; i < 3; ++i) { check(c, la[i], ma[i], w); check(c, lb[i], mb[i], w); }
            c.eval(); c.count(w); c.distinct(hm(ma[0]) ^ vh::mix(hm(ma[1])) ^ vh::mix(hm(mb[0]) + 3) ^ vh::hash_str(w));
        }
        if (c.want_sample()) c.sample(vh::fmt("%zu elements, three lists per link: sizes %zu %zu %zu / %zu %zu %zu", ne, ma[0].size(), ma[1].size(), ma[2].size(), mb[0].size(), mb[1].size(), mb[2].size()));
    });
}

// Elements with movable links change address: the new object takes the old one's place.
VH_CASE(movable_links, 3)
{
    c.iterate(c.n(1200, 20000), [&](uint64_t)
    {
        awl::quick_list<MElem, link_m> l[2];
        std::vector<std::unique_ptr<MElem>> el; std::vector<MElem*> m[2]; int next = 0;
        const size_t ne = 1 + c.rng.below(8);
        for (size_t i = 0; i < ne; ++i) el.push_back(std::make_unique<MElem>(next++));
        auto at = [&](MElem* e) { for (int i = 0; i < 2; ++i) if (std::find(m[i].begin(), m[i].end(), e) != m[i].end()) return i; return -1; };
        for (int op = 0; op < 40; ++op)
        {
            const size_t x = c.rng.below(el.size()); MElem* e = el[x].get(); const int where = at(e); const char* w = "?";
            switch (c.rng.below(6))
            {
            case 0: w = "push_back"; if (where < 0) { int a = static_cast<int>(c.rng.below(2)); l[a].push_back(e); m[a].push_back(e); } break;
            case 1: w = "push_front"; if (where < 0) { int a = static_cast<int>(c.rng.below(2)); l[a].push_front(e); m[a].insert(m[a].begin(), e); } break;
            case 2: w = "exclude"; if (where >= 0) { static_cast<link_m*>(e)->exclude(); m[where].erase(std::find(m[where].begin(), m[where].end(), e)); } break;
            case 3: case 4:
            {
                w = "element move construction";
                auto n = std::make_unique<MElem>(std::move(*e));
                VH_CHECK(c, !static_cast<link_m*>(e)->included(), "moved-from", "moved-from element is still included");
                VH_CHECK(c, static_cast<link_m*>(n.get())->included() == (where >= 0), "included", "moved element included()");
                if (where >= 0) *std::find(m[where].begin(), m[where].end(), e) = n.get();
                el[x] = std::move(n); break;
            }
            default:
            {
                w = "element move assignment";
                const size_t y = c.rng.below(el.size()); if (x == y) break;
                MElem* d = el[y].get(); const int dw = at(d);
                if (dw >= 0) m[dw].erase(std::find(m[dw].begin(), m[dw].end(), d));
                *d = std::move(*e);
                if (where >= 0) *std::find(m[where].begin(), m[where].end(), e) = d;
                VH_CHECK(c, !static_cast<link_m*>(e)->included(), "moved-from", "moved-from element is still included");
                break;
            }
            }
            for (int i = 0; i < 2; ++i) check(c, l[i], m[i], w);
            for (auto& q : el) VH_CHECK(c, static_cast<link_m*>(q.get())->included() == (at(q.get()) >= 0), "included", "%s: included()", w);
            uint64_t h = vh::hash_str(w); for (int i = 0; i < 2; ++i) for (auto q : m[i]) h = vh::mix(h ^ q->id ^ (i << 8));
            c.eval(); c.count(w); c.distinct(h);
        }
        if (c.want_sample()) c.sample(vh::fmt("%zu movable elements in two lists, final sizes %zu %zu", ne, m[0].size(), m[1].size()));
    });
}

// All words of list operations over three elements and two lists.
VH_CASE(exhaustive_words, 4)
{
    const int len = c.thorough ? 6 : 5;
    const int nops = 10; uint64_t total = 1; for (int i = 0; i < len; ++i) total *= nops;
    for (uint64_t word = c.shard; word < total; word += c.shards)
    {
        c.begin(word);
        Elem e[3] = { Elem(0), Elem(1), Elem(2) };
        awl::quick_list<Elem> l[2]; std::vector<Elem*> m[2];
        uint64_t q = word; int next = 0;
        for (int i = 0; i < len; ++i, q /= nops)
        {
            auto take = [&]() -> Elem* { for (int k = 0; k < 3; ++k) { Elem* x = &e[(next + k) % 3]; if (!x->quick_link::included()) { next = (next + k + 1) % 3; return x; } } return nullptr; };
            const int op = static_cast<int>(q % nops), a = op & 1;
            switch (op / 2)
            {
            case 0: if (Elem* x = take()) { l[a].push_front(x); m[a].insert(m[a].begin(), x); } break;
            case 1: if (Elem* x = take()) { l[a].push_back(x); m[a].push_back(x); } break;
            case 2: if (!m[a].empty()) { VH_CHECK(c, l[a].pop_front() == m[a].front(), "pop-result", "word %llu", static_cast<unsigned long long>(word)); m[a].erase(m[a].begin()); } break;
            case 3: if (!m[a].empty()) { VH_CHECK(c, l[a].pop_back() == m[a].back(), "pop-result", "word %llu", static_cast<unsigned long long>(word)); m[a].pop_back(); } break;
            default: if (a) { l[0].push_back(l[1]); m[0].insert(m[0].end(), m[1].begin(), m[1].end()); m[1].clear(); } else { l[1].push_front(l[0]); m[1].insert(m[1].begin(), m[0].begin(), m[0].end()); m[0].clear(); } break;
            }
            for (int k = 0; k < 2; ++k) check(c, l[k], m[k], "word");
        }
        c.eval(); c.distinct(word);
    }
    c.sample(vh::fmt("all words of %d operations over 3 elements and 2 lists", len));
}

VH_MAIN()
