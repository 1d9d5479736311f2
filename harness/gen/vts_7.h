// Generated by tools/gen_vts.py
#pragma once
namespace f7 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { sv::Plain8 m1_6{}; uint16_t x17{}; AWL_REFLECT(m1_6, x17) static auto members() { return std::make_tuple(&S1::m1_6, &S1::x17); }};
struct S0 { std::optional<S1> m0_1{}; S1 m0_2{}; std::chrono::system_clock::time_point x03{}; std::array<S1, 2> m0_4{}; std::map<int32_t, std::vector<std::optional<S1>>> m0_5{}; AWL_REFLECT(m0_1, m0_2, x03, m0_4, m0_5) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::x03, &S0::m0_4, &S0::m0_5); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { int32_t x18 = 17; uint16_t x17 = 19; AWL_REFLECT(x18, x17) static auto members() { return std::make_tuple(&S1::x18, &S1::x17); }};
struct S0 { std::optional<S1> m0_1{}; S1 m0_2{}; std::chrono::system_clock::time_point x03{}; std::array<S1, 2> m0_4{}; std::map<int32_t, std::vector<std::optional<S1>>> m0_5{}; AWL_REFLECT(m0_1, m0_2, x03, m0_4, m0_5) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::x03, &S0::m0_4, &S0::m0_5); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { int32_t x18 = 17; uint16_t renamed2_10 = 19; AWL_REFLECT(x18, renamed2_10) static auto members() { return std::make_tuple(&S1::x18, &S1::renamed2_10); }};
struct S0 { std::optional<S1> m0_1{}; S1 m0_2{}; std::chrono::system_clock::time_point x03{}; std::array<S1, 2> m0_4{}; std::map<int32_t, std::vector<std::optional<S1>>> m0_5{}; AWL_REFLECT(m0_1, m0_2, x03, m0_4, m0_5) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::x03, &S0::m0_4, &S0::m0_5); }};
}
namespace v0 { inline void conv(const S1& a, f7::v1::S1& b) { (void)a; (void)b; sv::cv(a.x17, b.x17); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f7::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f7::v2::S1& b) { (void)a; (void)b; sv::cv(a.x17, b.renamed2_10); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f7::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f7::v0::S1& b) { (void)a; (void)b; sv::cv(a.x17, b.x17); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f7::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f7::v2::S1& b) { (void)a; (void)b; sv::cv(a.x18, b.x18); sv::cv(a.x17, b.renamed2_10); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f7::v2::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f7::v0::S1& b) { (void)a; (void)b;  } }
namespace v2 { inline constexpr size_t gone(const S1*, const f7::v0::S1*) { return 2; } }
namespace v2 { inline void conv(const S1& a, f7::v1::S1& b) { (void)a; (void)b; sv::cv(a.x18, b.x18); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f7::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f7::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x03, b.x03); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f7::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f7::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x03, b.x03); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f7::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f7::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x03, b.x03); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f7::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f7::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x03, b.x03); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f7::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f7::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x03, b.x03); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f7::v0::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f7::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x03, b.x03); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f7::v1::S0*) { return 0; } }
}
namespace awl::io {
template <> class FieldMap<f7::v1::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "renamed2_9") return "x17"; return s; } };
template <> class FieldMap<f7::v2::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "x17") return "renamed2_10"; if (s == "renamed2_9") return "renamed2_10"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f7::v0::S0> { using extra_tuple = std::tuple<int32_t>; };
template <> struct type_converter<f7::v1::S0> { using extra_tuple = std::tuple<sv::Plain8>; };
template <> struct type_converter<f7::v2::S0> { using extra_tuple = std::tuple<sv::Plain8>; };
}
struct Family7 { static constexpr const char* name = "f7"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f7::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f7::v0::S1>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f7::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f7::v1::S1>{}; } else { if constexpr (k == 0) return std::type_identity<f7::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f7::v2::S1>{}; } }())::type; static constexpr size_t structs = 2; };
#define VTS_FAMILIES(X) X(Family7)
