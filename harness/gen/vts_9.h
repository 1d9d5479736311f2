// Generated by tools/gen_vts.py
#pragma once
namespace f9 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { std::array<int32_t, 3> m1_2{}; std::shared_ptr<std::string> m1_3{}; float value1_4{}; int64_t m1_5{}; float m1_6{}; AWL_REFLECT(m1_2, m1_3, value1_4, m1_5, m1_6) static auto members() { return std::make_tuple(&S1::m1_2, &S1::m1_3, &S1::value1_4, &S1::m1_5, &S1::m1_6); }};
struct S0 { int64_t x01{}; std::vector<std::vector<S1>> r1_7{}; AWL_REFLECT(x01, r1_7) static auto members() { return std::make_tuple(&S0::x01, &S0::r1_7); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { std::array<int32_t, 3> m1_2{}; float value1_4 = 1.5f; int64_t renamed1_8 = -18; float m1_6 = 1.5f; AWL_REFLECT(m1_2, value1_4, renamed1_8, m1_6) static auto members() { return std::make_tuple(&S1::m1_2, &S1::value1_4, &S1::renamed1_8, &S1::m1_6); }};
struct S0 { int64_t x01 = -18; std::vector<std::vector<S1>> r1_7{}; AWL_REFLECT(x01, r1_7) static auto members() { return std::make_tuple(&S0::x01, &S0::r1_7); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { std::array<int32_t, 3> m1_2{}; int8_t x111 = 20; float value1_4 = 1.5f; float m1_6 = 1.5f; AWL_REFLECT(m1_2, x111, value1_4, m1_6) static auto members() { return std::make_tuple(&S1::m1_2, &S1::x111, &S1::value1_4, &S1::m1_6); }};
struct S0 { std::set<int32_t> value0_10 = { 6, 7 }; std::vector<std::vector<S1>> r1_7{}; AWL_REFLECT(value0_10, r1_7) static auto members() { return std::make_tuple(&S0::value0_10, &S0::r1_7); }};
}
namespace v0 { inline void conv(const S1& a, f9::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_4, b.value1_4); sv::cv(a.m1_5, b.renamed1_8); sv::cv(a.m1_6, b.m1_6); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f9::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f9::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_4, b.value1_4); sv::cv(a.m1_6, b.m1_6); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f9::v2::S1*) { return 2; } }
namespace v1 { inline void conv(const S1& a, f9::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_4, b.value1_4); sv::cv(a.m1_6, b.m1_6); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f9::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f9::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_4, b.value1_4); sv::cv(a.m1_6, b.m1_6); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f9::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f9::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_4, b.value1_4); sv::cv(a.m1_6, b.m1_6); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f9::v0::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f9::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_4, b.value1_4); sv::cv(a.m1_6, b.m1_6); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f9::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f9::v1::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.r1_7, b.r1_7); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f9::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f9::v2::S0& b) { (void)a; (void)b; sv::cv(a.r1_7, b.r1_7); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f9::v2::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f9::v0::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.r1_7, b.r1_7); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f9::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f9::v2::S0& b) { (void)a; (void)b; sv::cv(a.r1_7, b.r1_7); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f9::v2::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f9::v0::S0& b) { (void)a; (void)b; sv::cv(a.r1_7, b.r1_7); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f9::v0::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f9::v1::S0& b) { (void)a; (void)b; sv::cv(a.r1_7, b.r1_7); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f9::v1::S0*) { return 1; } }
}
namespace awl::io {
template <> class FieldMap<f9::v1::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m1_5") return "renamed1_8"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f9::v0::S0> { using extra_tuple = std::tuple<std::set<int32_t>, int8_t>; };
template <> struct type_converter<f9::v1::S0> { using extra_tuple = std::tuple<std::shared_ptr<std::string>, std::set<int32_t>, int8_t>; };
template <> struct type_converter<f9::v2::S0> { using extra_tuple = std::tuple<int64_t, std::shared_ptr<std::string>>; };
}
struct Family9 { static constexpr const char* name = "f9"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f9::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f9::v0::S1>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f9::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f9::v1::S1>{}; } else { if constexpr (k == 0) return std::type_identity<f9::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f9::v2::S1>{}; } }())::type; static constexpr size_t structs = 2; };
#define VTS_FAMILIES(X) X(Family9)
