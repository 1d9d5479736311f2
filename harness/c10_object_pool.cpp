// C10: object_pool: every object is in exactly one of {used, being finalized, free, gone}; monitored per address.
#include "vh.h"
#include "Awl/ObjectPool.h"

#include <set>

using vh::Case;

namespace
{
    enum State { Used, Finalizing, Free };
    struct Monitor
    {
        std::map<const void*, State> state; std::map<const void*, int> finals;
        uint64_t made = 0, gone = 0, finalized = 0; std::string bad; bool clearing = false; int throw_in = -1;
        void err(const char* w) { if (bad.empty()) bad = w; }
    };
    Monitor* M;

    struct P : public awl::pooled_object
    {
        P() { if (M->throw_in > 0 && --M->throw_in == 0) { M->throw_in = -1; throw vh::HarnessError{ "constructor" }; } ++M->made; M->state[this] = Free; }
        ~P() override { ++M->gone; auto i = M->state.find(this); if (i == M->state.end()) { M->err("object destroyed twice"); return; } if (i->second != Free) M->err("object destroyed while it is referenced"); if (!M->clearing) M->err("object destroyed although the pool was not cleared"); M->state.erase(i); }
        void Finalize() override
        {
            ++M->finalized; auto i = M->state.find(this);
            if (i == M->state.end()) { M->err("finalized after destruction"); return; }
            if (i->second != Used) M->err(i->second == Free ? "finalized while free" : "finalized twice");
            i->second = Finalizing;
            if (hook) { auto h = std::move(hook); hook = nullptr; h(); }
            next.reset(); // drops other pooled objects from inside Finalize
            M->state[this] = Free; // from here on it may be handed out again
            value = 0;
        }
        std::shared_ptr<P> next; std::function<void()> hook; int value = 0;
    };

    void history(Case& c, bool singleton)
    {
        static bool broken = false; if (broken) return; // the global pool is in an unknown state
        struct Guard { int n = std::uncaught_exceptions(); ~Guard() { if (std::uncaught_exceptions() > n) broken = true; } } guard;
        static Monitor store; store = Monitor(); Monitor& mon = store; M = &store;
        std::unique_ptr<awl::object_pool<P>> own; if (!singleton) own = std::make_unique<awl::object_pool<P>>();
        awl::object_pool<P>& pool = singleton ? awl::objectPoolSingleton<P> : *own;
        {
            std::vector<std::shared_ptr<P>> refs; std::vector<std::weak_ptr<P>> weak;
            auto free_count = [&]() { size_t n = 0; for (auto& s : mon.state) n += s.second == Free; return n; };
            auto take = [&](const char* what) -> std::shared_ptr<P>
            {
                const size_t nfree = free_count(); const uint64_t made = mon.made;
                std::shared_ptr<P> p = singleton ? awl::make_pooled<P>() : pool.make();
                VH_CHECK(c, p, "null", "%s: null object", what);
                auto i = mon.state.find(p.get()); VH_CHECK(c, i != mon.state.end(), "dead", "%s: object handed out is not alive", what);
                VH_CHECK(c, i->second == Free, "two-owners", "%s: object handed out while %s", what, i->second == Used ? "it has another owner" : "it is being finalized");
                VH_CHECK(c, (mon.made != made) == (nfree == 0), "reuse", "%s: %zu free objects but %s", what, nfree, mon.made != made ? "a new one was made" : "none was made");
                VH_CHECK(c, mon.made - made <= 1 && p.use_count() == 1, "count", "%s: made %llu, use count %ld", what, (unsigned long long)(mon.made - made), p.use_count());
                VH_CHECK(c, p->value == 0, "reset", "%s: object was not finalized before reuse", what);
                i->second = Used; p->value = 1 + static_cast<int>(c.rng.below(1000)); return p;
            };
            for (int op = 0; op < 60; ++op)
            {
                const char* what = "?"; std::set<const void*> used; for (auto& s : mon.state) if (s.second == Used) used.insert(s.first);
                switch (c.rng.below(14))
                {
                case 0: case 1: case 2: case 3: what = "make"; refs.push_back(take(what)); break;
                case 4: what = "copy"; if (!refs.empty()) refs.push_back(c.rng.pick(refs)); break;
                case 5: case 6: case 7: what = "drop"; if (!refs.empty()) { size_t i = c.rng.below(refs.size()); std::swap(refs[i], refs.back()); refs.pop_back(); } break;
                case 8: what = "add"; { P* p = new P(); auto r = pool.add(p); VH_CHECK(c, r.get() == p && r.use_count() == 1 && mon.state[p] == Free, "add", "add returned another object"); mon.state[p] = Used; p->value = 1; refs.push_back(r); } break;
                case 9: what = "link"; if (refs.size() > 1) { auto& a = c.rng.pick(refs); auto& b = c.rng.pick(refs); bool cyc = false; for (P* x = b.get(); x; x = x->next.get()) cyc = cyc || x == a.get(); if (!cyc) a->next = b; } break;
                case 10: what = "clear"; if (c.rng.chance(1, 2)) { mon.clearing = true; if (singleton) awl::clear_pool<P>(); else pool.clear(); mon.clearing = false; VH_CHECK(c, free_count() == 0, "clear", "%zu free objects left after clear", free_count()); } break;
                case 11: what = "make from Finalize"; if (!refs.empty()) { auto& r = c.rng.pick(refs); if (!r->hook && r.use_count() == 1) { r->hook = [&]() { auto q = take("make from Finalize"); if (c.rng.flip()) refs.push_back(q); }; std::shared_ptr<P> t = std::move(r); r = refs.back(); refs.pop_back(); if (&r != &refs.back() + 1) {} t.reset(); } } break;
                case 12: what = "constructor throws"; mon.throw_in = 1; { const auto n = mon.made; const bool nofree = free_count() == 0; try { refs.push_back(take(what)); VH_CHECK(c, !nofree, "throw", "no exception although a constructor threw"); } catch (const vh::HarnessError&) { VH_CHECK(c, nofree && mon.made == n, "throw", "exception although a free object existed"); } mon.throw_in = -1; } break;
                case 13: what = "weak"; if (!refs.empty()) weak.push_back(c.rng.pick(refs)); if (!weak.empty()) { auto& w = c.rng.pick(weak); if (auto s = w.lock()) { VH_CHECK(c, mon.state.count(s.get()) && mon.state[s.get()] == Used, "weak", "a locked weak pointer gives an object nobody owns"); refs.push_back(s); } } break;
                }
                VH_CHECK(c, mon.bad.empty(), "lifecycle", "%s: %s", what, mon.bad.c_str());
                // exactly the objects reachable from references are in use
                std::set<const void*> reach; for (auto& r : refs) for (P* p = r.get(); p; p = p->next.get()) { VH_CHECK(c, p->value != 0, "content", "%s: a referenced object was reset", what); if (!reach.insert(p).second) break; }
                std::set<const void*> now; uint64_t h = vh::hash_str(what); for (auto& s : mon.state) { if (s.second == Used) now.insert(s.first); VH_CHECK(c, s.second != Finalizing, "lifecycle", "%s: object left in the middle of finalization", what); }
                VH_CHECK(c, reach == now, "ownership", "%s: %zu objects referenced, %zu marked used", what, reach.size(), now.size());
                VH_CHECK(c, mon.made - mon.gone == mon.state.size(), "conservation", "%s: made %llu destroyed %llu alive %zu", what, (unsigned long long)mon.made, (unsigned long long)mon.gone, mon.state.size());
                h = vh::mix(h ^ now.size() * 131 ^ mon.state.size() ^ refs.size() * 7777);
                c.eval(); c.count(what); c.distinct(h);
            }
            for (auto& r : refs) r->hook = nullptr;
            c.rng.shuffle(refs); refs.clear();
            VH_CHECK(c, mon.bad.empty(), "lifecycle", "teardown: %s", mon.bad.c_str());
            VH_CHECK(c, free_count() == mon.state.size(), "ownership", "objects in use without references");
        }
        if (c.want_sample()) c.sample(vh::fmt("made %llu, finalized %llu, destroyed before teardown %llu", (unsigned long long)mon.made, (unsigned long long)mon.finalized, (unsigned long long)mon.gone));
        c.count("finalized", mon.finalized);
        mon.clearing = true; if (singleton) awl::clear_pool<P>(); own.reset();
        VH_CHECK(c, mon.bad.empty(), "lifecycle", "teardown: %s", mon.bad.c_str());
        VH_CHECK(c, mon.state.empty() && mon.made == mon.gone, "leak", "%zu objects not destroyed with the pool", mon.state.size());
    }
}

VH_CASE(own_pool, 5) { c.iterate(c.n(3000, 60000), [&](uint64_t) { history(c, false); }); }
VH_CASE(singleton_pool, 3) { c.iterate(c.n(1500, 30000), [&](uint64_t) { history(c, true); }); }

// Hundreds of objects in use and free at once.
VH_CASE(large, 1)
{
    c.iterate(c.n(20, 300), [&](uint64_t)
    {
        static Monitor store; store = Monitor(); Monitor& mon = store; M = &store; auto pool = std::make_unique<awl::object_pool<P>>();
        {
            std::vector<std::shared_ptr<P>> refs; size_t free = 0, alive = 0;
            for (int op = 0; op < 14; ++op)
            {
                size_t k = c.rng.below(500); const uint64_t made = mon.made;
                switch (c.rng.below(5))
                {
                default: for (size_t i = 0; i < k; ++i) { auto p = pool->make(); VH_CHECK(c, mon.state[p.get()] == Free, "two-owners", "object handed out while in use"); mon.state[p.get()] = Used; p->value = 1; refs.push_back(std::move(p)); }
                    VH_CHECK(c, mon.made - made == k - std::min(k, free), "reuse", "%zu objects made with %zu free: %llu new", k, free, (unsigned long long)(mon.made - made)); alive += k - std::min(k, free); free -= std::min(k, free); break;
                case 2: case 3: c.rng.shuffle(refs); k = std::min(k, refs.size()); refs.resize(refs.size() - k); free += k; break;
                case 4: if (c.rng.chance(1, 3)) { mon.clearing = true; pool->clear(); mon.clearing = false; alive -= free; free = 0; } break;
                }
                VH_CHECK(c, mon.bad.empty(), "lifecycle", "%s", mon.bad.c_str());
                size_t f = 0; for (auto& s : mon.state) f += s.second == Free; VH_CHECK(c, f == free && mon.state.size() == alive && mon.made - mon.gone == alive, "conservation", "%zu free of %zu alive, model %zu of %zu", f, mon.state.size(), free, alive);
                c.eval(); c.distinct(vh::mix(free * 100000 + alive)); c.count("objects in use", refs.size());
            }
        }
        mon.clearing = true; pool.reset(); VH_CHECK(c, mon.bad.empty(), "lifecycle", "%s", mon.bad.c_str()); VH_CHECK(c, mon.state.empty() && mon.made == mon.gone, "leak", "%zu objects not destroyed with the pool", mon.state.size());
    });
}

VH_MAIN()
