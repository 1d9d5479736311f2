// Generated by tools/gen_vts.py
#pragma once
namespace f6 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::u32string x27{}; bool m2_8 = true; std::vector<int32_t> value2_9{}; int64_t m2_10{}; std::deque<double> value2_11{}; bool value2_12 = true; AWL_REFLECT(x27, m2_8, value2_9, m2_10, value2_11, value2_12) static auto members() { return std::make_tuple(&S2::x27, &S2::m2_8, &S2::value2_9, &S2::m2_10, &S2::value2_11, &S2::value2_12); }};
struct S1 { S2 m1_2{}; std::u32string value1_3{}; std::unordered_map<int32_t, std::string> m1_4{}; S2 m1_5{}; S2 m1_6{}; AWL_REFLECT(m1_2, value1_3, m1_4, m1_5, m1_6) static auto members() { return std::make_tuple(&S1::m1_2, &S1::value1_3, &S1::m1_4, &S1::m1_5, &S1::m1_6); }};
struct S0 { S1 m0_1{}; AWL_REFLECT(m0_1) static auto members() { return std::make_tuple(&S0::m0_1); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::u32string x27{}; bool m2_8 = true; std::vector<int32_t> value2_9 = { 4, 5 }; int64_t m2_10 = -18; std::deque<double> value2_11 = { 0.5 }; bool value2_12 = true; AWL_REFLECT(x27, m2_8, value2_9, m2_10, value2_11, value2_12) static auto members() { return std::make_tuple(&S2::x27, &S2::m2_8, &S2::value2_9, &S2::m2_10, &S2::value2_11, &S2::value2_12); }};
struct S1 { S2 m1_2{}; std::u32string value1_3{}; S2 m1_5{}; std::variant<int32_t, std::string, bool> m1_15{}; S2 m1_6{}; AWL_REFLECT(m1_2, value1_3, m1_5, m1_15, m1_6) static auto members() { return std::make_tuple(&S1::m1_2, &S1::value1_3, &S1::m1_5, &S1::m1_15, &S1::m1_6); }};
struct S0 { std::chrono::system_clock::time_point value0_14{}; awl::decimal<uint64_t, 4> x013{}; S1 m0_1{}; AWL_REFLECT(value0_14, x013, m0_1) static auto members() { return std::make_tuple(&S0::value0_14, &S0::x013, &S0::m0_1); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::variant<int32_t, std::string, bool> value2_19{}; std::u32string x27{}; std::map<std::string, int32_t> value2_18 = { { "k", 1 } }; bool m2_8 = true; std::vector<int32_t> renamed2_17 = { 4, 5 }; int64_t m2_10 = -18; std::deque<double> value2_11 = { 0.5 }; bool value2_12 = true; AWL_REFLECT(value2_19, x27, value2_18, m2_8, renamed2_17, m2_10, value2_11, value2_12) static auto members() { return std::make_tuple(&S2::value2_19, &S2::x27, &S2::value2_18, &S2::m2_8, &S2::renamed2_17, &S2::m2_10, &S2::value2_11, &S2::value2_12); }};
struct S1 { S2 m1_2{}; S2 m1_16{}; std::u32string value1_3{}; std::variant<int32_t, std::string, bool> m1_15{}; S2 m1_6{}; AWL_REFLECT(m1_2, m1_16, value1_3, m1_15, m1_6) static auto members() { return std::make_tuple(&S1::m1_2, &S1::m1_16, &S1::value1_3, &S1::m1_15, &S1::m1_6); }};
struct S0 { std::chrono::system_clock::time_point value0_14{}; awl::decimal<uint64_t, 4> x013{}; S1 m0_1{}; AWL_REFLECT(value0_14, x013, m0_1) static auto members() { return std::make_tuple(&S0::value0_14, &S0::x013, &S0::m0_1); }};
}
namespace v0 { inline void conv(const S2& a, f6::v1::S2& b) { (void)a; (void)b; sv::cv(a.x27, b.x27); sv::cv(a.m2_8, b.m2_8); sv::cv(a.value2_9, b.value2_9); sv::cv(a.m2_10, b.m2_10); sv::cv(a.value2_11, b.value2_11); sv::cv(a.value2_12, b.value2_12); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f6::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f6::v2::S2& b) { (void)a; (void)b; sv::cv(a.x27, b.x27); sv::cv(a.m2_8, b.m2_8); sv::cv(a.value2_9, b.renamed2_17); sv::cv(a.m2_10, b.m2_10); sv::cv(a.value2_11, b.value2_11); sv::cv(a.value2_12, b.value2_12); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f6::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f6::v0::S2& b) { (void)a; (void)b; sv::cv(a.x27, b.x27); sv::cv(a.m2_8, b.m2_8); sv::cv(a.value2_9, b.value2_9); sv::cv(a.m2_10, b.m2_10); sv::cv(a.value2_11, b.value2_11); sv::cv(a.value2_12, b.value2_12); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f6::v0::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f6::v2::S2& b) { (void)a; (void)b; sv::cv(a.x27, b.x27); sv::cv(a.m2_8, b.m2_8); sv::cv(a.value2_9, b.renamed2_17); sv::cv(a.m2_10, b.m2_10); sv::cv(a.value2_11, b.value2_11); sv::cv(a.value2_12, b.value2_12); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f6::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f6::v0::S2& b) { (void)a; (void)b; sv::cv(a.x27, b.x27); sv::cv(a.m2_8, b.m2_8); sv::cv(a.m2_10, b.m2_10); sv::cv(a.value2_11, b.value2_11); sv::cv(a.value2_12, b.value2_12); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f6::v0::S2*) { return 3; } }
namespace v2 { inline void conv(const S2& a, f6::v1::S2& b) { (void)a; (void)b; sv::cv(a.x27, b.x27); sv::cv(a.m2_8, b.m2_8); sv::cv(a.m2_10, b.m2_10); sv::cv(a.value2_11, b.value2_11); sv::cv(a.value2_12, b.value2_12); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f6::v1::S2*) { return 3; } }
namespace v0 { inline void conv(const S1& a, f6::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_3, b.value1_3); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_6, b.m1_6); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f6::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f6::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_3, b.value1_3); sv::cv(a.m1_6, b.m1_6); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f6::v2::S1*) { return 2; } }
namespace v1 { inline void conv(const S1& a, f6::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_3, b.value1_3); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_6, b.m1_6); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f6::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f6::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_3, b.value1_3); sv::cv(a.m1_15, b.m1_15); sv::cv(a.m1_6, b.m1_6); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f6::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f6::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_3, b.value1_3); sv::cv(a.m1_6, b.m1_6); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f6::v0::S1*) { return 2; } }
namespace v2 { inline void conv(const S1& a, f6::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.value1_3, b.value1_3); sv::cv(a.m1_15, b.m1_15); sv::cv(a.m1_6, b.m1_6); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f6::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f6::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f6::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f6::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f6::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f6::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f6::v0::S0*) { return 2; } }
namespace v1 { inline void conv(const S0& a, f6::v2::S0& b) { (void)a; (void)b; sv::cv(a.value0_14, b.value0_14); sv::cv(a.x013, b.x013); sv::cv(a.m0_1, b.m0_1); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f6::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f6::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f6::v0::S0*) { return 2; } }
namespace v2 { inline void conv(const S0& a, f6::v1::S0& b) { (void)a; (void)b; sv::cv(a.value0_14, b.value0_14); sv::cv(a.x013, b.x013); sv::cv(a.m0_1, b.m0_1); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f6::v1::S0*) { return 0; } }
}
namespace awl::io {
template <> class FieldMap<f6::v2::S2> { public: static std::string_view GetNewName(std::string_view s) { if (s == "value2_9") return "renamed2_17"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f6::v0::S0> { using extra_tuple = std::tuple<std::chrono::system_clock::time_point, awl::decimal<uint64_t, 4>, std::variant<int32_t, std::string, bool>, std::map<std::string, int32_t>>; };
template <> struct type_converter<f6::v1::S0> { using extra_tuple = std::tuple<std::unordered_map<int32_t, std::string>, std::map<std::string, int32_t>>; };
template <> struct type_converter<f6::v2::S0> { using extra_tuple = std::tuple<std::unordered_map<int32_t, std::string>>; };
}
struct Family6 { static constexpr const char* name = "f6"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f6::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f6::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f6::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f6::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f6::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f6::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f6::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f6::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f6::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family6)
