// Generated by tools/gen_vts.py
#pragma once
namespace f13 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::map<std::string, int32_t> m2_6{}; float value2_7{}; std::set<int32_t> x28{}; std::u32string x29{}; double value2_10 = 2.5; std::optional<int64_t> value2_11{}; AWL_REFLECT(m2_6, value2_7, x28, x29, value2_10, value2_11) static auto members() { return std::make_tuple(&S2::m2_6, &S2::value2_7, &S2::x28, &S2::x29, &S2::value2_10, &S2::value2_11); }};
struct S1 { bool x14 = true; std::array<S2, 2> m1_5{}; AWL_REFLECT(x14, m1_5) static auto members() { return std::make_tuple(&S1::x14, &S1::m1_5); }};
struct S0 { sv::Plain32 x01{}; std::array<S1, 2> m0_2{}; S2 m0_3{}; AWL_REFLECT(x01, m0_2, m0_3) static auto members() { return std::make_tuple(&S0::x01, &S0::m0_2, &S0::m0_3); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::map<std::string, int32_t> m2_6 = { { "k", 1 } }; float value2_7 = 1.5f; std::set<int32_t> x28 = { 6, 7 }; std::shared_ptr<std::string> m2_14{}; awl::decimal<uint64_t, 4> value2_15{}; std::u32string x29{}; double value2_10 = 2.5; std::optional<int64_t> value2_11 = { 8 }; AWL_REFLECT(m2_6, value2_7, x28, m2_14, value2_15, x29, value2_10, value2_11) static auto members() { return std::make_tuple(&S2::m2_6, &S2::value2_7, &S2::x28, &S2::m2_14, &S2::value2_15, &S2::x29, &S2::value2_10, &S2::value2_11); }};
struct S1 { std::optional<std::vector<S2>> m1_12{}; bool x14 = true; S2 m1_13{}; AWL_REFLECT(m1_12, x14, m1_13) static auto members() { return std::make_tuple(&S1::m1_12, &S1::x14, &S1::m1_13); }};
struct S0 { std::array<S1, 2> m0_2{}; S2 m0_3{}; AWL_REFLECT(m0_2, m0_3) static auto members() { return std::make_tuple(&S0::m0_2, &S0::m0_3); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::map<std::string, int32_t> m2_6 = { { "k", 1 } }; std::set<int32_t> x217 = { 6, 7 }; float value2_7 = 1.5f; std::set<int32_t> x28 = { 6, 7 }; std::shared_ptr<std::string> m2_14{}; std::u32string x29{}; double value2_10 = 2.5; std::optional<int64_t> value2_11 = { 8 }; AWL_REFLECT(m2_6, x217, value2_7, x28, m2_14, x29, value2_10, value2_11) static auto members() { return std::make_tuple(&S2::m2_6, &S2::x217, &S2::value2_7, &S2::x28, &S2::m2_14, &S2::x29, &S2::value2_10, &S2::value2_11); }};
struct S1 { bool x14 = true; std::optional<std::vector<S2>> m1_12{}; S2 m1_13{}; AWL_REFLECT(x14, m1_12, m1_13) static auto members() { return std::make_tuple(&S1::x14, &S1::m1_12, &S1::m1_13); }};
struct S0 { std::array<S1, 2> m0_2{}; AWL_REFLECT(m0_2) static auto members() { return std::make_tuple(&S0::m0_2); }};
}
namespace v0 { inline void conv(const S2& a, f13::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.x28, b.x28); sv::cv(a.x29, b.x29); sv::cv(a.value2_10, b.value2_10); sv::cv(a.value2_11, b.value2_11); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f13::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f13::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.x28, b.x28); sv::cv(a.x29, b.x29); sv::cv(a.value2_10, b.value2_10); sv::cv(a.value2_11, b.value2_11); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f13::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f13::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.x28, b.x28); sv::cv(a.x29, b.x29); sv::cv(a.value2_10, b.value2_10); sv::cv(a.value2_11, b.value2_11); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f13::v0::S2*) { return 2; } }
namespace v1 { inline void conv(const S2& a, f13::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.x28, b.x28); sv::cv(a.m2_14, b.m2_14); sv::cv(a.x29, b.x29); sv::cv(a.value2_10, b.value2_10); sv::cv(a.value2_11, b.value2_11); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f13::v2::S2*) { return 1; } }
namespace v2 { inline void conv(const S2& a, f13::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.x28, b.x28); sv::cv(a.x29, b.x29); sv::cv(a.value2_10, b.value2_10); sv::cv(a.value2_11, b.value2_11); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f13::v0::S2*) { return 2; } }
namespace v2 { inline void conv(const S2& a, f13::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.x28, b.x28); sv::cv(a.m2_14, b.m2_14); sv::cv(a.x29, b.x29); sv::cv(a.value2_10, b.value2_10); sv::cv(a.value2_11, b.value2_11); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f13::v1::S2*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f13::v1::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f13::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f13::v2::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f13::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f13::v0::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f13::v0::S1*) { return 2; } }
namespace v1 { inline void conv(const S1& a, f13::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_12, b.m1_12); sv::cv(a.x14, b.x14); sv::cv(a.m1_13, b.m1_13); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f13::v2::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f13::v0::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f13::v0::S1*) { return 2; } }
namespace v2 { inline void conv(const S1& a, f13::v1::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); sv::cv(a.m1_12, b.m1_12); sv::cv(a.m1_13, b.m1_13); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f13::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f13::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f13::v1::S0*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f13::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f13::v2::S0*) { return 2; } }
namespace v1 { inline void conv(const S0& a, f13::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f13::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f13::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f13::v2::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f13::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f13::v0::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f13::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f13::v1::S0*) { return 0; } }
}
namespace awl::io {
}
namespace awl::mp {
template <> struct type_converter<f13::v0::S0> { using extra_tuple = std::tuple<std::optional<std::vector<f13::v0::Dummy>>, std::shared_ptr<std::string>, awl::decimal<uint64_t, 4>>; };
template <> struct type_converter<f13::v1::S0> { using extra_tuple = std::tuple<sv::Plain32>; };
template <> struct type_converter<f13::v2::S0> { using extra_tuple = std::tuple<sv::Plain32, awl::decimal<uint64_t, 4>>; };
}
struct Family13 { static constexpr const char* name = "f13"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f13::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f13::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f13::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f13::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f13::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f13::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f13::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f13::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f13::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family13)
