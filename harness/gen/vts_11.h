// Generated by tools/gen_vts.py
#pragma once
namespace f11 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::deque<double> m2_5{}; std::optional<int64_t> m2_6{}; int64_t value2_7{}; std::unordered_map<int32_t, std::string> value2_8{}; AWL_REFLECT(m2_5, m2_6, value2_7, value2_8) static auto members() { return std::make_tuple(&S2::m2_5, &S2::m2_6, &S2::value2_7, &S2::value2_8); }};
struct S1 { std::set<int32_t> x14{}; AWL_REFLECT(x14) static auto members() { return std::make_tuple(&S1::x14); }};
struct S0 { std::vector<S2> m0_1{}; std::vector<std::vector<S2>> m0_2{}; std::vector<int32_t> m0_3{}; S1 r1_9{}; AWL_REFLECT(m0_1, m0_2, m0_3, r1_9) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::m0_3, &S0::r1_9); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::deque<double> m2_5 = { 0.5 }; std::optional<int64_t> m2_6 = { 8 }; int64_t value2_7 = -18; std::unordered_map<int32_t, std::string> value2_8{}; AWL_REFLECT(m2_5, m2_6, value2_7, value2_8) static auto members() { return std::make_tuple(&S2::m2_5, &S2::m2_6, &S2::value2_7, &S2::value2_8); }};
struct S1 { std::set<int32_t> x14 = { 6, 7 }; int8_t value1_11 = 20; AWL_REFLECT(x14, value1_11) static auto members() { return std::make_tuple(&S1::x14, &S1::value1_11); }};
struct S0 { std::vector<S2> m0_1{}; std::vector<std::vector<S2>> m0_2{}; double x010 = 2.5; std::vector<int32_t> m0_3 = { 4, 5 }; S1 r1_9{}; AWL_REFLECT(m0_1, m0_2, x010, m0_3, r1_9) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::x010, &S0::m0_3, &S0::r1_9); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::unordered_map<int32_t, std::string> value2_8{}; std::deque<double> m2_5 = { 0.5 }; AWL_REFLECT(value2_8, m2_5) static auto members() { return std::make_tuple(&S2::value2_8, &S2::m2_5); }};
struct S1 { int8_t value1_11 = 20; AWL_REFLECT(value1_11) static auto members() { return std::make_tuple(&S1::value1_11); }};
struct S0 { S1 r1_9{}; double x010 = 2.5; std::vector<int32_t> m0_3 = { 4, 5 }; std::vector<S2> m0_1{}; AWL_REFLECT(r1_9, x010, m0_3, m0_1) static auto members() { return std::make_tuple(&S0::r1_9, &S0::x010, &S0::m0_3, &S0::m0_1); }};
}
namespace v0 { inline void conv(const S2& a, f11::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_5, b.m2_5); sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.value2_8, b.value2_8); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f11::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f11::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_5, b.m2_5); sv::cv(a.value2_8, b.value2_8); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f11::v2::S2*) { return 2; } }
namespace v1 { inline void conv(const S2& a, f11::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_5, b.m2_5); sv::cv(a.m2_6, b.m2_6); sv::cv(a.value2_7, b.value2_7); sv::cv(a.value2_8, b.value2_8); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f11::v0::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f11::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_5, b.m2_5); sv::cv(a.value2_8, b.value2_8); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f11::v2::S2*) { return 2; } }
namespace v2 { inline void conv(const S2& a, f11::v0::S2& b) { (void)a; (void)b; sv::cv(a.value2_8, b.value2_8); sv::cv(a.m2_5, b.m2_5); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f11::v0::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f11::v1::S2& b) { (void)a; (void)b; sv::cv(a.value2_8, b.value2_8); sv::cv(a.m2_5, b.m2_5); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f11::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f11::v1::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f11::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f11::v2::S1& b) { (void)a; (void)b;  } }
namespace v0 { inline constexpr size_t gone(const S1*, const f11::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f11::v0::S1& b) { (void)a; (void)b; sv::cv(a.x14, b.x14); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f11::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f11::v2::S1& b) { (void)a; (void)b; sv::cv(a.value1_11, b.value1_11); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f11::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f11::v0::S1& b) { (void)a; (void)b;  } }
namespace v2 { inline constexpr size_t gone(const S1*, const f11::v0::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f11::v1::S1& b) { (void)a; (void)b; sv::cv(a.value1_11, b.value1_11); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f11::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f11::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.r1_9, b.r1_9); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f11::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f11::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.r1_9, b.r1_9); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f11::v2::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f11::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.r1_9, b.r1_9); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f11::v0::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f11::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.x010, b.x010); sv::cv(a.m0_3, b.m0_3); sv::cv(a.r1_9, b.r1_9); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f11::v2::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f11::v0::S0& b) { (void)a; (void)b; sv::cv(a.r1_9, b.r1_9); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_1, b.m0_1); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f11::v0::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f11::v1::S0& b) { (void)a; (void)b; sv::cv(a.r1_9, b.r1_9); sv::cv(a.x010, b.x010); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_1, b.m0_1); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f11::v1::S0*) { return 0; } }
}
namespace awl::io {
}
namespace awl::mp {
template <> struct type_converter<f11::v0::S0> { using extra_tuple = std::tuple<double, int8_t>; };
template <> struct type_converter<f11::v1::S0> { using extra_tuple = std::tuple<>; };
template <> struct type_converter<f11::v2::S0> { using extra_tuple = std::tuple<std::vector<std::vector<f11::v2::Dummy>>, std::set<int32_t>, std::optional<int64_t>, int64_t>; };
}
struct Family11 { static constexpr const char* name = "f11"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f11::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f11::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f11::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f11::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f11::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f11::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f11::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f11::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f11::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family11)
