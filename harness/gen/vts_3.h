// Generated by tools/gen_vts.py
#pragma once
namespace f3 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::string x211{}; std::u32string value2_12{}; int32_t value2_13 = 17; std::variant<int32_t, std::string, bool> m2_14{}; std::vector<int32_t> value2_15{}; AWL_REFLECT(x211, value2_12, value2_13, m2_14, value2_15) static auto members() { return std::make_tuple(&S2::x211, &S2::value2_12, &S2::value2_13, &S2::m2_14, &S2::value2_15); }};
struct S1 { sv::Plain8 x16{}; int32_t x17 = 17; std::shared_ptr<S2> m1_8{}; std::vector<std::vector<S2>> m1_9{}; std::map<int32_t, S2> m1_10{}; AWL_REFLECT(x16, x17, m1_8, m1_9, m1_10) static auto members() { return std::make_tuple(&S1::x16, &S1::x17, &S1::m1_8, &S1::m1_9, &S1::m1_10); }};
struct S0 { std::optional<std::vector<S2>> m0_1{}; std::variant<int32_t, S2> m0_2{}; std::map<int32_t, S1> m0_3{}; std::chrono::system_clock::time_point x04{}; std::optional<S2> m0_5{}; AWL_REFLECT(m0_1, m0_2, m0_3, x04, m0_5) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::m0_3, &S0::x04, &S0::m0_5); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::string x211 = "dflt"; std::u32string value2_12{}; std::vector<int32_t> value2_15 = { 4, 5 }; AWL_REFLECT(x211, value2_12, value2_15) static auto members() { return std::make_tuple(&S2::x211, &S2::value2_12, &S2::value2_15); }};
struct S1 { sv::Plain8 x16{}; int32_t renamed1_16 = 17; std::shared_ptr<S2> m1_8{}; std::vector<std::vector<S2>> m1_9{}; std::map<int32_t, S2> m1_10{}; AWL_REFLECT(x16, renamed1_16, m1_8, m1_9, m1_10) static auto members() { return std::make_tuple(&S1::x16, &S1::renamed1_16, &S1::m1_8, &S1::m1_9, &S1::m1_10); }};
struct S0 { std::optional<std::vector<S2>> m0_1{}; std::variant<int32_t, S2> m0_2{}; std::chrono::system_clock::time_point x04{}; std::optional<S2> m0_5{}; AWL_REFLECT(m0_1, m0_2, x04, m0_5) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::x04, &S0::m0_5); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::string x211 = "dflt"; std::vector<std::string> m2_18{}; std::vector<int32_t> value2_15 = { 4, 5 }; std::u32string value2_12{}; AWL_REFLECT(x211, m2_18, value2_15, value2_12) static auto members() { return std::make_tuple(&S2::x211, &S2::m2_18, &S2::value2_15, &S2::value2_12); }};
struct S1 { sv::Plain8 x16{}; int32_t renamed1_16 = 17; std::shared_ptr<S2> m1_8{}; std::map<int32_t, S2> m1_10{}; AWL_REFLECT(x16, renamed1_16, m1_8, m1_10) static auto members() { return std::make_tuple(&S1::x16, &S1::renamed1_16, &S1::m1_8, &S1::m1_10); }};
struct S0 { std::optional<std::vector<S2>> m0_1{}; std::map<std::string, S1> m0_17{}; std::variant<int32_t, S2> m0_2{}; std::chrono::system_clock::time_point x04{}; AWL_REFLECT(m0_1, m0_17, m0_2, x04) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_17, &S0::m0_2, &S0::x04); }};
}
namespace v0 { inline void conv(const S2& a, f3::v1::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.value2_12, b.value2_12); sv::cv(a.value2_15, b.value2_15); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f3::v1::S2*) { return 2; } }
namespace v0 { inline void conv(const S2& a, f3::v2::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.value2_12, b.value2_12); sv::cv(a.value2_15, b.value2_15); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f3::v2::S2*) { return 2; } }
namespace v1 { inline void conv(const S2& a, f3::v0::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.value2_12, b.value2_12); sv::cv(a.value2_15, b.value2_15); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f3::v0::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f3::v2::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.value2_12, b.value2_12); sv::cv(a.value2_15, b.value2_15); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f3::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f3::v0::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.value2_15, b.value2_15); sv::cv(a.value2_12, b.value2_12); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f3::v0::S2*) { return 1; } }
namespace v2 { inline void conv(const S2& a, f3::v1::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.value2_15, b.value2_15); sv::cv(a.value2_12, b.value2_12); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f3::v1::S2*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f3::v1::S1& b) { (void)a; (void)b; sv::cv(a.x16, b.x16); sv::cv(a.x17, b.renamed1_16); sv::cv(a.m1_8, b.m1_8); sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_10, b.m1_10); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f3::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f3::v2::S1& b) { (void)a; (void)b; sv::cv(a.x16, b.x16); sv::cv(a.x17, b.renamed1_16); sv::cv(a.m1_8, b.m1_8); sv::cv(a.m1_10, b.m1_10); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f3::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f3::v0::S1& b) { (void)a; (void)b; sv::cv(a.x16, b.x16); sv::cv(a.m1_8, b.m1_8); sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_10, b.m1_10); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f3::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f3::v2::S1& b) { (void)a; (void)b; sv::cv(a.x16, b.x16); sv::cv(a.renamed1_16, b.renamed1_16); sv::cv(a.m1_8, b.m1_8); sv::cv(a.m1_10, b.m1_10); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f3::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f3::v0::S1& b) { (void)a; (void)b; sv::cv(a.x16, b.x16); sv::cv(a.m1_8, b.m1_8); sv::cv(a.m1_10, b.m1_10); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f3::v0::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f3::v1::S1& b) { (void)a; (void)b; sv::cv(a.x16, b.x16); sv::cv(a.renamed1_16, b.renamed1_16); sv::cv(a.m1_8, b.m1_8); sv::cv(a.m1_10, b.m1_10); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f3::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f3::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x04, b.x04); sv::cv(a.m0_5, b.m0_5); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f3::v1::S0*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f3::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x04, b.x04); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f3::v2::S0*) { return 2; } }
namespace v1 { inline void conv(const S0& a, f3::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x04, b.x04); sv::cv(a.m0_5, b.m0_5); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f3::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f3::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x04, b.x04); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f3::v2::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f3::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x04, b.x04); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f3::v0::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f3::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.x04, b.x04); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f3::v1::S0*) { return 1; } }
}
namespace awl::io {
template <> class FieldMap<f3::v1::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "x17") return "renamed1_16"; return s; } };
template <> class FieldMap<f3::v2::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "x17") return "renamed1_16"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f3::v0::S0> { using extra_tuple = std::tuple<std::map<std::string, f3::v0::Dummy>, std::vector<std::string>>; };
template <> struct type_converter<f3::v1::S0> { using extra_tuple = std::tuple<std::map<int32_t, f3::v1::Dummy>, sv::Plain8, int32_t, std::shared_ptr<f3::v1::Dummy>, std::vector<std::vector<f3::v1::Dummy>>, std::variant<int32_t, std::string, bool>, std::map<std::string, f3::v1::Dummy>, std::vector<std::string>>; };
template <> struct type_converter<f3::v2::S0> { using extra_tuple = std::tuple<std::optional<f3::v2::Dummy>, std::vector<std::vector<f3::v2::Dummy>>, std::variant<int32_t, std::string, bool>>; };
}
struct Family3 { static constexpr const char* name = "f3"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f3::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f3::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f3::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f3::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f3::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f3::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f3::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f3::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f3::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family3)
