#include "c37.h"
#define STR2(x) #x
#define STR(x) STR2(x)
namespace
{
    // what initialises first sees an empty part of the chains
    struct First { First() { Early e; e.unit = STR(UNIT) "-first"; auto& f = awl::static_chain<awl::FactoryFuncPtr<std::unique_ptr<Made>>>(); for (auto l : f) e.chain.push_back(l->name());
#define X(n) e.after.push_back(#n);
        NAMES(X)
#undef X
        try { awl::create<std::unique_ptr<Made>>("no such"); } catch (const awl::FactoryException&) { e.unknown = true; } e.made = true; early().push_back(e); } } first;
#define X(n) struct n##_Made : Made { std::string who() const override { return STR(UNIT) ":" #n; } }; \
    AWL_FACTORY(std::unique_ptr<Made>, n) { return std::make_unique<n##_Made>(); }
    NAMES(X)
#undef X
    struct Middle { Middle() { Early e; e.unit = STR(UNIT); auto& f = awl::static_chain<awl::FactoryFuncPtr<std::unique_ptr<Made>>>(); for (auto l : f) e.chain.push_back(l->name());
#define X(n) e.before.push_back(#n);
        NAMES(X)
#undef X
        try { auto p = awl::create<std::unique_ptr<Made>>(e.before[1]== "alphabet" ? "alphabet" : e.before[0].c_str()); e.made = p != nullptr && p->who().find(STR(UNIT)) == 0; } catch (...) {} try { awl::create<std::unique_ptr<Made>>("no such"); } catch (const awl::FactoryException&) { e.unknown = true; } early().push_back(e); } } middle;
#define X(n) awl::StaticLink<Info> n##_info(#n, STR(UNIT) ":" #n, __LINE__); \
    std::string n##_with_number(int v) { return STR(UNIT) ":" #n ":" + std::to_string(v); } \
    std::string n##_with_text(const std::string& t) { return STR(UNIT) ":" #n ":" + t; } \
    int n##_by_reference(int& v, std::unique_ptr<std::string> p) { ++v; return static_cast<int>(p->size()) + v; } \
    int n##_number = 0; int& n##_place() { return n##_number; } \
    namespace numbers { AWL_REGISTER_FACTORY(n##_with_number, n) } namespace texts { AWL_REGISTER_FACTORY(n##_with_text, n) } namespace references { AWL_REGISTER_FACTORY(n##_by_reference, n) } namespace places { AWL_REGISTER_FACTORY(n##_place, n) }
    NAMES(X)
#undef X
    [[maybe_unused]] AWT_DISABLED_FACTORY(std::unique_ptr<Made>, disabled) { return nullptr; }
}
#ifdef WITH_RARE
static awl::StaticLink<Rare> rare_link("rare", Rare{ 5 });
#endif
