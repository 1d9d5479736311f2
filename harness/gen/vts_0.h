// Generated by tools/gen_vts.py
#pragma once
namespace f0 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { uint16_t value2_13{}; double value2_14 = 2.5; int64_t m2_15{}; std::map<std::string, int32_t> m2_16{}; std::optional<std::vector<std::string>> value2_17{}; std::set<int32_t> x218{}; AWL_REFLECT(value2_13, value2_14, m2_15, m2_16, value2_17, x218) static auto members() { return std::make_tuple(&S2::value2_13, &S2::value2_14, &S2::m2_15, &S2::m2_16, &S2::value2_17, &S2::x218); }};
struct S1 { std::array<int32_t, 3> m1_7{}; sv::Plain8 x18{}; std::vector<S2> m1_9{}; std::vector<std::string> value1_10{}; std::u32string m1_11{}; double x112 = 2.5; AWL_REFLECT(m1_7, x18, m1_9, value1_10, m1_11, x112) static auto members() { return std::make_tuple(&S1::m1_7, &S1::x18, &S1::m1_9, &S1::value1_10, &S1::m1_11, &S1::x112); }};
struct S0 { std::variant<int32_t, std::string, bool> value0_1{}; std::vector<S2> m0_2{}; std::vector<std::vector<S1>> m0_3{}; std::variant<int32_t, S1> m0_4{}; std::optional<int64_t> m0_5{}; double m0_6 = 2.5; AWL_REFLECT(value0_1, m0_2, m0_3, m0_4, m0_5, m0_6) static auto members() { return std::make_tuple(&S0::value0_1, &S0::m0_2, &S0::m0_3, &S0::m0_4, &S0::m0_5, &S0::m0_6); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { int32_t renamed1_23 = 17; std::string value2_22 = "dflt"; uint16_t value2_13 = 19; double value2_14 = 2.5; int64_t m2_15 = -18; std::map<std::string, int32_t> m2_16 = { { "k", 1 } }; std::optional<std::vector<std::string>> value2_17{}; std::set<int32_t> x218 = { 6, 7 }; AWL_REFLECT(renamed1_23, value2_22, value2_13, value2_14, m2_15, m2_16, value2_17, x218) static auto members() { return std::make_tuple(&S2::renamed1_23, &S2::value2_22, &S2::value2_13, &S2::value2_14, &S2::m2_15, &S2::m2_16, &S2::value2_17, &S2::x218); }};
struct S1 { double renamed1_20 = 2.5; std::map<int32_t, S2> m1_19{}; sv::Plain8 x18{}; std::u32string m1_11{}; std::vector<std::string> value1_10{}; std::vector<S2> m1_9{}; std::array<int32_t, 3> m1_7{}; AWL_REFLECT(renamed1_20, m1_19, x18, m1_11, value1_10, m1_9, m1_7) static auto members() { return std::make_tuple(&S1::renamed1_20, &S1::m1_19, &S1::x18, &S1::m1_11, &S1::value1_10, &S1::m1_9, &S1::m1_7); }};
struct S0 { std::variant<int32_t, std::string, bool> value0_1{}; std::vector<S2> m0_2{}; std::vector<std::vector<S1>> m0_3{}; std::variant<int32_t, S1> m0_4{}; std::optional<int64_t> m0_5 = { 8 }; double m0_6 = 2.5; AWL_REFLECT(value0_1, m0_2, m0_3, m0_4, m0_5, m0_6) static auto members() { return std::make_tuple(&S0::value0_1, &S0::m0_2, &S0::m0_3, &S0::m0_4, &S0::m0_5, &S0::m0_6); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { int32_t renamed1_23 = 17; std::string value2_22 = "dflt"; uint16_t value2_13 = 19; double renamed2_24 = 2.5; std::u32string value2_25{}; int64_t m2_15 = -18; std::map<std::string, int32_t> m2_16 = { { "k", 1 } }; std::optional<std::vector<std::string>> value2_17{}; std::set<int32_t> x218 = { 6, 7 }; AWL_REFLECT(renamed1_23, value2_22, value2_13, renamed2_24, value2_25, m2_15, m2_16, value2_17, x218) static auto members() { return std::make_tuple(&S2::renamed1_23, &S2::value2_22, &S2::value2_13, &S2::renamed2_24, &S2::value2_25, &S2::m2_15, &S2::m2_16, &S2::value2_17, &S2::x218); }};
struct S1 { double renamed1_20 = 2.5; std::vector<S2> m1_9{}; sv::Plain8 x18{}; std::u32string m1_11{}; std::vector<std::string> value1_10{}; std::map<int32_t, S2> m1_19{}; AWL_REFLECT(renamed1_20, m1_9, x18, m1_11, value1_10, m1_19) static auto members() { return std::make_tuple(&S1::renamed1_20, &S1::m1_9, &S1::x18, &S1::m1_11, &S1::value1_10, &S1::m1_19); }};
struct S0 { std::variant<int32_t, std::string, bool> value0_1{}; std::vector<std::vector<S1>> m0_3{}; double m0_6 = 2.5; std::optional<int64_t> m0_5 = { 8 }; std::variant<int32_t, S1> m0_4{}; AWL_REFLECT(value0_1, m0_3, m0_6, m0_5, m0_4) static auto members() { return std::make_tuple(&S0::value0_1, &S0::m0_3, &S0::m0_6, &S0::m0_5, &S0::m0_4); }};
}
namespace v0 { inline void conv(const S2& a, f0::v1::S2& b) { (void)a; (void)b; sv::cv(a.value2_13, b.value2_13); sv::cv(a.value2_14, b.value2_14); sv::cv(a.m2_15, b.m2_15); sv::cv(a.m2_16, b.m2_16); sv::cv(a.value2_17, b.value2_17); sv::cv(a.x218, b.x218); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f0::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f0::v2::S2& b) { (void)a; (void)b; sv::cv(a.value2_13, b.value2_13); sv::cv(a.value2_14, b.renamed2_24); sv::cv(a.m2_15, b.m2_15); sv::cv(a.m2_16, b.m2_16); sv::cv(a.value2_17, b.value2_17); sv::cv(a.x218, b.x218); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f0::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f0::v0::S2& b) { (void)a; (void)b; sv::cv(a.value2_13, b.value2_13); sv::cv(a.value2_14, b.value2_14); sv::cv(a.m2_15, b.m2_15); sv::cv(a.m2_16, b.m2_16); sv::cv(a.value2_17, b.value2_17); sv::cv(a.x218, b.x218); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f0::v0::S2*) { return 2; } }
namespace v1 { inline void conv(const S2& a, f0::v2::S2& b) { (void)a; (void)b; sv::cv(a.renamed1_23, b.renamed1_23); sv::cv(a.value2_22, b.value2_22); sv::cv(a.value2_13, b.value2_13); sv::cv(a.value2_14, b.renamed2_24); sv::cv(a.m2_15, b.m2_15); sv::cv(a.m2_16, b.m2_16); sv::cv(a.value2_17, b.value2_17); sv::cv(a.x218, b.x218); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f0::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f0::v0::S2& b) { (void)a; (void)b; sv::cv(a.value2_13, b.value2_13); sv::cv(a.m2_15, b.m2_15); sv::cv(a.m2_16, b.m2_16); sv::cv(a.value2_17, b.value2_17); sv::cv(a.x218, b.x218); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f0::v0::S2*) { return 4; } }
namespace v2 { inline void conv(const S2& a, f0::v1::S2& b) { (void)a; (void)b; sv::cv(a.renamed1_23, b.renamed1_23); sv::cv(a.value2_22, b.value2_22); sv::cv(a.value2_13, b.value2_13); sv::cv(a.m2_15, b.m2_15); sv::cv(a.m2_16, b.m2_16); sv::cv(a.value2_17, b.value2_17); sv::cv(a.x218, b.x218); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f0::v1::S2*) { return 2; } }
namespace v0 { inline void conv(const S1& a, f0::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); sv::cv(a.value1_10, b.value1_10); sv::cv(a.m1_11, b.m1_11); sv::cv(a.x112, b.renamed1_20); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f0::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f0::v2::S1& b) { (void)a; (void)b; sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); sv::cv(a.value1_10, b.value1_10); sv::cv(a.m1_11, b.m1_11); sv::cv(a.x112, b.renamed1_20); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f0::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f0::v0::S1& b) { (void)a; (void)b; sv::cv(a.x18, b.x18); sv::cv(a.m1_11, b.m1_11); sv::cv(a.value1_10, b.value1_10); sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_7, b.m1_7); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f0::v0::S1*) { return 2; } }
namespace v1 { inline void conv(const S1& a, f0::v2::S1& b) { (void)a; (void)b; sv::cv(a.renamed1_20, b.renamed1_20); sv::cv(a.m1_19, b.m1_19); sv::cv(a.x18, b.x18); sv::cv(a.m1_11, b.m1_11); sv::cv(a.value1_10, b.value1_10); sv::cv(a.m1_9, b.m1_9); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f0::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f0::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_9, b.m1_9); sv::cv(a.x18, b.x18); sv::cv(a.m1_11, b.m1_11); sv::cv(a.value1_10, b.value1_10); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f0::v0::S1*) { return 2; } }
namespace v2 { inline void conv(const S1& a, f0::v1::S1& b) { (void)a; (void)b; sv::cv(a.renamed1_20, b.renamed1_20); sv::cv(a.m1_9, b.m1_9); sv::cv(a.x18, b.x18); sv::cv(a.m1_11, b.m1_11); sv::cv(a.value1_10, b.value1_10); sv::cv(a.m1_19, b.m1_19); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f0::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f0::v1::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); sv::cv(a.m0_6, b.m0_6); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f0::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f0::v2::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); sv::cv(a.m0_6, b.m0_6); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f0::v2::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f0::v0::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); sv::cv(a.m0_6, b.m0_6); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f0::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f0::v2::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); sv::cv(a.m0_5, b.m0_5); sv::cv(a.m0_6, b.m0_6); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f0::v2::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f0::v0::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_6, b.m0_6); sv::cv(a.m0_5, b.m0_5); sv::cv(a.m0_4, b.m0_4); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f0::v0::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f0::v1::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_6, b.m0_6); sv::cv(a.m0_5, b.m0_5); sv::cv(a.m0_4, b.m0_4); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f0::v1::S0*) { return 0; } }
}
namespace awl::io {
template <> class FieldMap<f0::v1::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "x112") return "renamed1_20"; return s; } };
template <> class FieldMap<f0::v1::S2> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m2_21") return "renamed1_23"; return s; } };
template <> class FieldMap<f0::v2::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "x112") return "renamed1_20"; return s; } };
template <> class FieldMap<f0::v2::S2> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m2_21") return "renamed1_23"; if (s == "value2_14") return "renamed2_24"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f0::v0::S0> { using extra_tuple = std::tuple<std::map<int32_t, f0::v0::Dummy>, int32_t, std::string>; };
template <> struct type_converter<f0::v1::S0> { using extra_tuple = std::tuple<>; };
template <> struct type_converter<f0::v2::S0> { using extra_tuple = std::tuple<std::array<int32_t, 3>>; };
}
struct Family0 { static constexpr const char* name = "f0"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f0::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f0::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f0::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f0::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f0::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f0::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f0::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f0::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f0::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family0)
