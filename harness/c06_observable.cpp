// C06: Observable/Observer against a subscription model.
#include "vh.h"
#include "Awl/Observable.h"

#include <algorithm>
#include <list>

using vh::Case;

namespace
{
    struct IEvents
    {
        virtual void OnEvent(int a, const std::string& b) = 0;
        virtual bool OnAsk(int a) = 0;
        virtual void OnNothing() = 0;
        virtual ~IEvents() = default;
    };

    struct Delivery { int who; int kind; int arg; };
    std::vector<Delivery>* g_log;

    struct Obs : public awl::Observer<IEvents>
    {
        explicit Obs(int i) : id(i) {}
        Obs(Obs&& o) = default;
        Obs& operator=(Obs&& o) = default;
        ~Obs() { alive = 0; }
        void check() { if (alive != 0x600d) abort(); }
        void OnEvent(int a, const std::string& b) override { check(); g_log->push_back({ id, 0, a }); if (b != "event " + std::to_string(a)) g_log->push_back({ id, 9, -1 }); react(); }
        bool OnAsk(int a) override { check(); g_log->push_back({ id, 1, a }); const bool r = id != refuse; react(); return r; }
        void OnNothing() override { check(); g_log->push_back({ id, 2, 0 }); react(); }
        void react() { if (action) { auto f = std::move(action); action = nullptr; f(*this); } }
        int id; int alive = 0x600d;
        static inline int refuse = -1;
        std::function<void(Obs&)> action;
    };

    struct Source : public awl::Observable<IEvents>
    {
        void Fire(int a) { Notify(&IEvents::OnEvent, a, "event " + std::to_string(a)); }
        bool Ask(int a) { return NotifyWhileTrue(&IEvents::OnAsk, a); }
        void Nothing() { Notify(&IEvents::OnNothing); }
    };
}

VH_CASE(histories, 6)
{
    c.iterate(c.n(2500, 50000), [&](uint64_t)
    {
        std::vector<Delivery> log; g_log = &log;
        const int ns = 3;
        std::vector<std::unique_ptr<Source>> src; std::vector<std::vector<Obs*>> sub(ns);   // model: subscribers in order
        for (int i = 0; i < ns; ++i) src.push_back(std::make_unique<Source>());
        std::vector<std::unique_ptr<Obs>> obs; int next = 0;
        for (size_t i = 0, n = 1 + c.rng.below(7); i < n; ++i) obs.push_back(std::make_unique<Obs>(next++));
        auto where = [&](Obs* o) { for (int i = 0; i < ns; ++i) if (std::find(sub[i].begin(), sub[i].end(), o) != sub[i].end()) return i; return -1; };
        auto drop = [&](Obs* o) { int w = where(o); if (w >= 0) sub[w].erase(std::find(sub[w].begin(), sub[w].end(), o)); };
        for (int op = 0; op < 50; ++op)
        {
            const char* w = "?"; const int a = static_cast<int>(c.rng.below(ns));
            switch (c.rng.below(16))
            {
            case 0: case 1: case 2: { w = "subscribe"; if (obs.empty()) break; Obs* o = c.rng.pick(obs).get(); if (where(o) < 0) { src[a]->Subscribe(o); sub[a].push_back(o); } break; }
            case 3: { w = "unsubscribe"; if (obs.empty()) break; Obs* o = c.rng.pick(obs).get(); int i = where(o); if (i >= 0) { if (c.rng.flip()) src[i]->Unsubscribe(o); else o->UnsubscribeSelf(); drop(o); } else o->UnsubscribeSafe(); break; }
            case 4: { w = "destroy observer"; if (obs.empty()) break; size_t i = c.rng.below(obs.size()); drop(obs[i].get()); obs.erase(obs.begin() + i); break; }
            case 5: { w = "new observer"; if (obs.size() < 8) obs.push_back(std::make_unique<Obs>(next++)); break; }
            case 6: { w = "move-construct observer"; if (obs.empty()) break; size_t i = c.rng.below(obs.size()); Obs* old = obs[i].get(); auto n = std::make_unique<Obs>(std::move(*old)); int p = where(old); if (p >= 0) *std::find(sub[p].begin(), sub[p].end(), old) = n.get(); VH_CHECK(c, !old->IsSubscribed(), "moved-from", "moved-from observer is still subscribed"); obs[i] = std::move(n); break; }
            case 7: { w = "move-assign observer"; if (obs.size() < 2) break; size_t i = c.rng.below(obs.size()), j = c.rng.below(obs.size()); if (i == j) break; Obs* d = obs[i].get(); Obs* s = obs[j].get(); drop(d); int p = where(s); *d = std::move(*s); if (p >= 0) *std::find(sub[p].begin(), sub[p].end(), s) = d; s->id = next++; break; }
            case 8: { w = "move-construct observable"; auto n = std::make_unique<Source>(std::move(*src[a])); VH_CHECK(c, src[a]->empty() && src[a]->size() == 0, "moved-from", "moved-from observable has observers"); src[a] = std::move(n); break; }
            case 9: { w = "move-assign observable"; int b = static_cast<int>(c.rng.below(ns)); if (a == b) break; *src[a] = std::move(*src[b]); sub[a] = sub[b]; sub[b].clear(); break; }
            case 10: { w = "destroy observable"; src[a] = std::make_unique<Source>(); sub[a].clear(); break; }
            case 11: { w = "notification in which observers unsubscribe or die";
                log.clear(); std::vector<int> expect; for (Obs* o : sub[a]) expect.push_back(o->id);
                const auto before = sub[a];
                for (Obs* o : before)
                {
                    switch (c.rng.below(5))
                    {
                    case 4: if (obs.size() < 12) o->action = [&](Obs&) { obs.push_back(std::make_unique<Obs>(next++)); src[a]->Subscribe(obs.back().get()); sub[a].push_back(obs.back().get()); c.count("subscribed during a notification"); }; break;
                    case 0: o->action = [&](Obs& self) { self.UnsubscribeSelf(); drop(&self); }; break;
                    case 1: o->action = [&](Obs& self) { drop(&self); for (size_t k = 0; k < obs.size(); ++k) if (obs[k].get() == &self) { auto dead = std::move(obs[k]); obs.erase(obs.begin() + k); break; } }; break;
                    default: break;
                    }
                }
                const int first_new = next;
                src[a]->Nothing();
                for (auto& o : obs) o->action = nullptr;
                // observers that came during the notification may or may not hear it
                log.erase(std::remove_if(log.begin(), log.end(), [&](const Delivery& d) { return d.who >= first_new; }), log.end());
                VH_CHECK(c, log.size() == expect.size(), "delivery-count", "%s: %zu deliveries for %zu subscribers", w, log.size(), expect.size());
                for (size_t k = 0; k < log.size(); ++k) VH_CHECK(c, log[k].who == expect[k] && log[k].kind == 2, "delivery-order", "%s: delivery %zu went to observer %d, expected %d", w, k, log[k].who, expect[k]);
                break; }
            case 12: { w = "ask until refused"; log.clear(); const int arg = op; Obs::refuse = sub[a].empty() || c.rng.flip() ? -1 : sub[a][c.rng.below(sub[a].size())]->id;
                std::vector<int> expect; bool all = true; std::vector<Obs*> asked; for (Obs* o : sub[a]) { expect.push_back(o->id); asked.push_back(o); if (o->id == Obs::refuse) { all = false; break; } }
                for (Obs* o : asked) if (c.rng.chance(1, 3)) { if (c.rng.flip()) o->action = [&](Obs& self) { self.UnsubscribeSelf(); drop(&self); }; else o->action = [&](Obs& self) { drop(&self); for (size_t k = 0; k < obs.size(); ++k) if (obs[k].get() == &self) { auto dead = std::move(obs[k]); obs.erase(obs.begin() + k); break; } }; }
                const bool r = src[a]->Ask(arg); Obs::refuse = -1;
                VH_CHECK(c, r == all, "ask-result", "asking until refused returns %d", r);
                VH_CHECK(c, log.size() == expect.size(), "delivery-count", "%s: %zu deliveries, expected %zu", w, log.size(), expect.size());
                for (size_t k = 0; k < log.size(); ++k) VH_CHECK(c, log[k].who == expect[k] && log[k].kind == 1 && log[k].arg == arg, "delivery-order", "%s: delivery %zu", w, k);
                break; }
            default: { w = "notify"; log.clear(); src[a]->Fire(op);
                VH_CHECK(c, log.size() == sub[a].size(), "delivery-count", "notification delivered %zu times to %zu subscribers", log.size(), sub[a].size());
                for (size_t k = 0; k < log.size(); ++k) VH_CHECK(c, log[k].who == sub[a][k]->id && log[k].kind == 0 && log[k].arg == op, "delivery-order", "delivery %zu went to observer %d, expected %d", k, log[k].who, sub[a][k]->id);
                c.count("deliveries", log.size()); break; }
            }
            for (int i = 0; i < ns; ++i) VH_CHECK(c, src[i]->size() == sub[i].size() && src[i]->empty() == sub[i].empty(), "subscriber-count", "%s: observable reports %zu observers, model %zu", w, static_cast<size_t>(src[i]->size()), sub[i].size());
            uint64_t h = vh::hash_str(w);
            for (auto& o : obs) { int p = where(o.get()); VH_CHECK(c, o->IsSubscribed() == (p >= 0), "is-subscribed", "%s: IsSubscribed() of observer %d", w, o->id); h = vh::mix(h ^ static_cast<uint64_t>(p + 2)); }
            c.eval(); c.count(w); c.distinct(h ^ vh::mix(sub[0].size() * 81 + sub[1].size() * 9 + sub[2].size()));
        }
        // tear down in random order
        while (!obs.empty() || !src.empty())
        {
            if (!obs.empty() && (src.empty() || c.rng.flip())) { size_t i = c.rng.below(obs.size()); obs.erase(obs.begin() + i); }
            else { size_t i = c.rng.below(src.size()); for (Obs* o : std::vector<Obs*>()) (void)o; src.erase(src.begin() + i); }
            for (auto& o : obs) if (src.empty()) VH_CHECK(c, !o->IsSubscribed(), "is-subscribed", "observer subscribed to a destroyed observable");
        }
        if (c.want_sample()) c.sample(vh::fmt("3 observables, %d observers created", next));
    });
}

// Hundreds of observers of one source.
VH_CASE(large, 1)
{
    c.iterate(c.n(12, 200), [&](uint64_t)
    {
        std::vector<Delivery> log; g_log = &log; auto src = std::make_unique<Source>(); std::vector<std::unique_ptr<Obs>> obs; std::vector<Obs*> sub; const int n = 200 + static_cast<int>(c.rng.below(600));
        for (int i = 0; i < n; ++i) { obs.push_back(std::make_unique<Obs>(i)); src->Subscribe(obs.back().get()); sub.push_back(obs.back().get()); }
        for (int op = 0; op < 12; ++op)
        {
            for (size_t k = c.rng.below(40); k; --k) { const size_t i = c.rng.below(obs.size()); if (!obs[i]) continue; auto p = std::find(sub.begin(), sub.end(), obs[i].get()); switch (c.rng.below(3)) { case 0: if (p != sub.end()) { sub.erase(p); } obs[i].reset(); break; case 1: if (p == sub.end()) { src->Subscribe(obs[i].get()); sub.push_back(obs[i].get()); } else { obs[i]->UnsubscribeSelf(); sub.erase(p); } break; default: { auto m = std::make_unique<Obs>(std::move(*obs[i])); if (p != sub.end()) *p = m.get(); obs[i] = std::move(m); } } }
            if (c.rng.chance(1, 4)) { auto m = std::make_unique<Source>(std::move(*src)); src = std::move(m); }
            log.clear(); if (c.rng.flip()) src->Fire(op); else { Obs::refuse = -1; VH_CHECK(c, src->Ask(op), "ask-result", "nobody refused"); }
            VH_CHECK(c, log.size() == sub.size() && src->size() == sub.size(), "delivery-count", "%zu deliveries to %zu subscribers, size() %zu", log.size(), sub.size(), static_cast<size_t>(src->size()));
            for (size_t k = 0; k < log.size(); ++k) VH_CHECK(c, log[k].who == sub[k]->id && log[k].arg == op && log[k].kind != 9, "delivery-order", "delivery %zu of %zu went to observer %d, expected %d", k, log.size(), log[k].who, sub[k]->id);
            c.eval(); c.count("deliveries", log.size()); c.distinct(vh::mix(static_cast<uint64_t>(n) * 1000 + sub.size()));
        }
        if (c.rng.flip()) src.reset();
    });
}

VH_MAIN()
