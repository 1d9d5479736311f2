// C37: static registries contain every registered entry, exactly once, and create what is registered under a name.
#include "vh.h"
#include "c37.h"
#include <algorithm>
#include <list>
#include <set>
using vh::Case; using vh::fmt;

namespace
{
    struct Entry { std::string unit, name; };
    const std::vector<Entry>& entries()
    {
        static const std::vector<Entry> v = {
#define X(n) { "unit_a", #n },
        NAMES_A(X)
#undef X
#define X(n) { "unit_b", #n },
        NAMES_B(X)
#undef X
#define X(n) { "unit_c", #n },
        NAMES_C(X)
#undef X
        }; return v;
    }
    std::set<std::string> units_of(const std::string& name) { std::set<std::string> s; for (auto& e : entries()) if (e.name == name) s.insert(e.unit); return s; }
    std::string cut(const std::string& s) { return s.size() > 60 ? s.substr(0, 60) + "..." : s; }

    // any text that is close to a registered name
    std::string some_name(vh::Rng& r)
    {
        std::string s = entries()[r.below(entries().size())].name;
        switch (r.below(11))
        {
        case 0: break; case 1: s += static_cast<char>(r.pick({ 'a', '_', '0', '1', ' ', 'c' })); break; case 2: s.pop_back(); break; case 3: s.erase(0, 1); break; case 4: s[r.below(s.size())] ^= 0x20; break; case 5: s.clear(); break;
        case 6: for (char& ch : s) ch = static_cast<char>(std::toupper(ch)); break; case 7: s = std::string(r.below(300), static_cast<char>('a' + r.below(3))); break; case 8: s = r.pick({ "disabled", "disabled_FactoryFunc", "rare", "alpha_FactoryLink", "no such", "\xff", "alpha " }); break; case 9: s.insert(r.below(s.size() + 1), 1, static_cast<char>('a' + r.below(26))); break; default: for (char& ch : s) ch = static_cast<char>(std::tolower(ch));
        }
        return s;
    }

    template <class T> void enumerated(Case& c, const char* what)
    {
        auto& chain = awl::static_chain<T>(); c.eval(); std::multiset<std::string> seen, want; std::set<const void*> objects; for (auto& e : entries()) want.insert(e.name);
        for (auto i = chain.begin(); i != chain.end(); ++i) { seen.insert(i->name()); VH_CHECK(c, objects.insert(*i).second, "twice", "%s: '%s' is enumerated twice", what, i->name()); VH_CHECK(c, objects.size() <= want.size(), "extra", "%s: more entries than are registered", what); }
        for (auto& n : want) VH_CHECK(c, seen.count(n) == want.count(n), "missing", "%s: '%s' is enumerated %zu times of %zu", what, cut(n).c_str(), seen.count(n), want.count(n)); VH_CHECK(c, seen == want, "extra", "%s: %zu entries, %zu are registered", what, seen.size(), want.size());
        VH_CHECK(c, &chain == &awl::static_chain<T>(), "same_chain", "%s: another chain", what); c.count("registries enumerated"); c.count("entries enumerated", seen.size());
    }
    template <class T> void found(Case& c, const char* what, const std::string& name)
    {
        auto& chain = awl::static_chain<T>(); const auto us = units_of(name); auto i = chain.find(name.c_str()), j = chain.find(name); VH_CHECK(c, i == j, "find", "%s: '%s' is found elsewhere as a string", what, cut(name).c_str());
        if (us.empty()) VH_CHECK(c, i == chain.end(), "found", "%s: '%s' is found", what, cut(name).c_str()); else { VH_CHECK(c, i != chain.end(), "not_found", "%s: '%s' is not found", what, cut(name).c_str()); VH_CHECK(c, name == i->name(), "other", "%s: '%s' is found as '%s'", what, cut(name).c_str(), i->name()); }
    }
    // calls a factory; the result must come from a unit that registers the name
    template <class F> void created(Case& c, const char* what, const std::string& name, F make)
    {
        const auto us = units_of(name); std::string got; bool failed = false; c.eval();
        try { got = make(name.c_str()); } catch (const awl::FactoryException& e) { failed = true; VH_CHECK(c, awl::ToAString(e.What()).find("'" + name + "'") != std::string::npos, "message", "%s: the message about '%s' is '%s'", what, cut(name).c_str(), awl::ToAString(e.What()).c_str()); }
        VH_CHECK(c, failed == us.empty(), "create", "%s: creating '%s' %s", what, cut(name).c_str(), failed ? "fails" : "succeeds");
        if (!failed) { bool good = false; for (auto& u : us) good = good || got == u + ":" + name; VH_CHECK(c, good, "created", "%s: '%s' creates '%s'", what, cut(name).c_str(), got.c_str()); } c.count(failed ? "unknown names" : "created"); c.distinct(vh::hash_str(name, vh::hash_str(what)));
    }
    using FMade = awl::FactoryFuncPtr<std::unique_ptr<Made>>; using FNumber = awl::FactoryFuncPtr<std::string, int>; using FText = awl::FactoryFuncPtr<std::string, const std::string&>; using FRef = awl::FactoryFuncPtr<int, int&, std::unique_ptr<std::string>>; using FPlace = awl::FactoryFuncPtr<int&>;
}

VH_CASE(registered, 2)
{
    c.iterate(c.n(20000, 400000), [&](uint64_t it)
    {
        vh::Rng& r = c.rng;
        if (it % 1000 == 0) { enumerated<FMade>(c, "makers"); enumerated<Info>(c, "infos"); enumerated<FNumber>(c, "factories with a number"); enumerated<FText>(c, "factories with a text"); enumerated<FRef>(c, "factories with references"); enumerated<FPlace>(c, "places");
            VH_CHECK(c, awl::static_chain<Rare>().begin() != awl::static_chain<Rare>().end() && ++awl::static_chain<Rare>().begin() == awl::static_chain<Rare>().end() && awl::static_chain<Rare>().find("rare")->value().n == 5 && awl::static_chain<Rare>().find("alpha") == awl::static_chain<Rare>().end(), "rare", "a registry with one entry"); VH_CHECK(c, awl::static_chain<Never>().begin() == awl::static_chain<Never>().end() && awl::static_chain<Never>().find("alpha") == awl::static_chain<Never>().end() && awl::static_chain<Never>().find(std::string()) == awl::static_chain<Never>().end(), "never", "an empty registry");
            for (auto& e : entries()) { found<FMade>(c, "makers", e.name); found<Info>(c, "infos", e.name); } }
        const std::string name = some_name(r); found<FMade>(c, "makers", name); found<Info>(c, "infos", name); found<FNumber>(c, "numbers", name); found<FPlace>(c, "places", name);
        if (!units_of(name).empty()) { auto i = awl::static_chain<Info>().find(name); VH_CHECK(c, i->value().text.size() == 7 + name.size() && i->value().text.substr(7) == name && units_of(name).count(i->value().text.substr(0, 6)) && &i->value() == &awl::static_chain<Info>().find(name)->value(), "value", "'%s' has the value '%s'", cut(name).c_str(), i->value().text.c_str()); }
        created(c, "makers", name, [](const char* n) { auto p = awl::create<std::unique_ptr<Made>>(n); return p ? p->who() : "nothing"; });
        const int v = static_cast<int>(r.next()); created(c, "numbers", name, [&](const char* n) { auto s = awl::create<std::string>(n, int(v)); const std::string tail = ":" + std::to_string(v); return s.size() > tail.size() && s.substr(s.size() - tail.size()) == tail ? s.substr(0, s.size() - tail.size()) : "with another number: " + s; });
        const std::string t(r.below(50), 't'); created(c, "texts", name, [&](const char* n) { auto s = awl::create<std::string>(n, t); return s.size() > t.size() ? s.substr(0, s.size() - t.size() - 1) : "with another text: " + s; });
        // references go through, what is movable is moved, nothing is consumed if there is no such factory
        { int x = v & 0xffff; const int x0 = x; auto p = std::make_unique<std::string>(r.below(30), 'p'); const size_t size = p->size(); bool failed = false; int got = 0; try { got = awl::create<int>(name.c_str(), x, std::move(p)); } catch (const awl::FactoryException&) { failed = true; } const bool known = !units_of(name).empty(); VH_CHECK(c, failed == !known && (known ? x == x0 + 1 && got == static_cast<int>(size) + x && !p : x == x0 && p && p->size() == size), "references", "'%s': %d is %d, the result is %d", cut(name).c_str(), x0, x, got); }
        { bool failed = false; int* a = nullptr; try { a = &awl::create<int&>(name.c_str()); int* b = &awl::create<int&>(name.c_str()); VH_CHECK(c, a == b, "place", "'%s' refers to another object", cut(name).c_str()); ++*a; } catch (const awl::FactoryException&) { failed = true; } VH_CHECK(c, failed == units_of(name).empty(), "place", "'%s'", cut(name).c_str()); }
        // a factory with another signature is another factory
        { bool failed = false; try { awl::create<std::string>(name.c_str()); } catch (const awl::FactoryException&) { failed = true; } VH_CHECK(c, failed, "signature", "'%s' is created by a factory with other parameters", cut(name).c_str()); failed = false; try { awl::create<std::string>(name.c_str(), 5, 6); } catch (const awl::FactoryException&) { failed = true; } VH_CHECK(c, failed, "signature", "'%s' is created by a factory with other parameters", cut(name).c_str()); }
        if (c.want_sample()) c.sample(cut(name));
    });
}

// What is registered before is found also during the initialisation of objects of static storage duration.
VH_CASE(initialisation, 1)
{
    c.iterate(1, [&](uint64_t)
    {
        VH_CHECK(c, early().size() == 6, "units", "%zu reports of the units", early().size()); size_t known = 0;
        std::string order; for (auto& e : early())
        {
            c.eval(); const bool first = e.unit.find("-first") != std::string::npos; order += e.unit + " "; if (!first) known += e.before.size(); std::multiset<std::string> chain(e.chain.begin(), e.chain.end());
            VH_CHECK(c, chain.size() == known, "early_size", "%s: %zu entries are seen of %zu", e.unit.c_str(), chain.size(), known);
            for (auto& n : e.before) VH_CHECK(c, chain.count(n) >= 1, "early_missing", "%s: '%s' is registered, but not seen", e.unit.c_str(), n.c_str()); for (auto& n : e.after) if (n != "shared") VH_CHECK(c, chain.count(n) == 0, "early_extra", "%s: '%s' is seen before it is registered", e.unit.c_str(), n.c_str());
            VH_CHECK(c, e.made && e.unknown, "early_create", "%s: creation during initialisation fails", e.unit.c_str()); c.distinct(vh::hash_str(e.unit)); c.count("observations during initialisation");
        }
        c.sample(order);
    });
}

// Registrations made while the program runs.
namespace
{
    template <int K> struct Tag { vh::Obj o; int n; Tag(int v) : o(v), n(v) {} Tag(int a, std::unique_ptr<int> b, const std::string& s) : o(a), n(a + *b + static_cast<int>(s.size())) {} Tag() : o(0), n(0) {} };
    template <int K> void run(Case& c)
    {
        using T = Tag<K>; using Link = awl::StaticLink<T>; struct Rec { std::string name; const Link* link; int n; }; static std::vector<Rec> model; static std::list<std::string> texts; static std::vector<std::unique_ptr<Link>> owners; vh::Rng& r = c.rng; auto& chain = awl::static_chain<T>();
        const size_t ops = 1 + r.below(3);
        for (size_t k = 0; k < ops && model.size() < 300; ++k)
        {
            std::string name = r.chance(1, 8) && !model.empty() ? r.pick(model).name + (r.flip() ? "" : "x") : r.chance(1, 20) ? std::string() : std::string(1 + r.below(r.chance(1, 6) ? 200 : 3), static_cast<char>('a' + r.below(3))) + static_cast<char>('a' + r.below(26)); if (r.chance(1, 6)) name[0] = static_cast<char>(r.next() | 1);
            texts.push_back(name); const char* p = texts.back().c_str(); int n = static_cast<int>(r.range(0, 1000000)); std::unique_ptr<Link> l;
            switch (r.below(3)) { case 0: l = std::make_unique<Link>(p, n); break; case 1: { auto u = std::make_unique<int>(7); l = std::make_unique<Link>(p, n, std::move(u), name); n += 7 + static_cast<int>(name.size()); VH_CHECK(c, !u, "forward", "a movable argument is not moved"); break; } default: l = std::make_unique<Link>(p); n = 0; }
            VH_CHECK(c, l->included() && l->name() == p && l->value().n == n, "made", "an entry is made otherwise"); model.push_back({ name, l.get(), n }); owners.push_back(std::move(l)); c.count("entries registered"); c.eval();
        }
        std::multimap<std::string, const Link*> want; for (auto& m : model) want.emplace(m.name, m.link); size_t seen = 0; std::set<const Link*> all;
        for (auto i = chain.begin(); i != chain.end(); ++i) { ++seen; VH_CHECK(c, seen <= model.size() && all.insert(*i).second, "run_extra", "%zu entries, %zu are registered", seen, model.size()); }
        for (auto& m : model) { VH_CHECK(c, all.count(m.link), "run_missing", "'%s' is not enumerated, %zu are registered", cut(m.name).c_str(), model.size()); VH_CHECK(c, m.link->value().n == m.n && m.name == m.link->name(), "run_value", "'%s' has another value", cut(m.name).c_str()); } VH_CHECK(c, seen == model.size(), "run_missing", "%zu entries, %zu are registered", seen, model.size());
        for (int k = 0; k < 20; ++k)
        {
            std::string name = r.pick(model).name; if (r.chance(1, 3)) { if (r.flip() && !name.empty()) name.pop_back(); else name += static_cast<char>('a' + r.below(3)); }
            auto i = chain.find(name); const auto range = want.equal_range(name); VH_CHECK(c, (i != chain.end()) == (range.first != range.second), "run_find", "'%s' is %s", cut(name).c_str(), i != chain.end() ? "found" : "not found");
            if (i != chain.end()) { bool good = false; for (auto x = range.first; x != range.second; ++x) good = good || x->second == *i; VH_CHECK(c, good, "run_other", "'%s' is found as '%s'", cut(name).c_str(), i->name()); if (r.chance(1, 10)) { i->value().n += 1; for (auto& m : model) if (m.link == *i) m.n += 1; c.count("values changed"); } c.count("found"); } else c.count("not found");
        }
        c.distinct(vh::hash_str(model.back().name, model.size()));
    }
}
VH_CASE(running, 1) { c.iterate(c.n(1500, 1500), [&](uint64_t it) { switch (it % 5) { case 0: run<0>(c); break; case 1: run<1>(c); break; case 2: run<2>(c); break; case 3: run<3>(c); break; default: run<4>(c); } }); c.sample("random names in 5 registries"); }
VH_MAIN()
