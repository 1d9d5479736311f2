// Generated by tools/gen_vts.py
#pragma once
namespace f12 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::deque<double> value2_8{}; std::vector<std::string> m2_9{}; AWL_REFLECT(value2_8, m2_9) static auto members() { return std::make_tuple(&S2::value2_8, &S2::m2_9); }};
struct S1 { std::optional<std::vector<std::string>> m1_3{}; S2 m1_4{}; uint16_t value1_5{}; std::string value1_6{}; std::optional<int64_t> m1_7{}; AWL_REFLECT(m1_3, m1_4, value1_5, value1_6, m1_7) static auto members() { return std::make_tuple(&S1::m1_3, &S1::m1_4, &S1::value1_5, &S1::value1_6, &S1::m1_7); }};
struct S0 { std::vector<S1> m0_1{}; std::vector<std::vector<S2>> m0_2{}; AWL_REFLECT(m0_1, m0_2) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::deque<double> renamed1_10 = { 0.5 }; std::vector<std::string> m2_9{}; AWL_REFLECT(renamed1_10, m2_9) static auto members() { return std::make_tuple(&S2::renamed1_10, &S2::m2_9); }};
struct S1 { std::optional<std::vector<std::string>> m1_3{}; S2 m1_4{}; uint16_t value1_5 = 19; std::string value1_6 = "dflt"; std::optional<int64_t> m1_7 = { 8 }; AWL_REFLECT(m1_3, m1_4, value1_5, value1_6, m1_7) static auto members() { return std::make_tuple(&S1::m1_3, &S1::m1_4, &S1::value1_5, &S1::value1_6, &S1::m1_7); }};
struct S0 { std::vector<std::vector<S2>> m0_2{}; AWL_REFLECT(m0_2) static auto members() { return std::make_tuple(&S0::m0_2); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { sv::Plain8 m2_13{}; std::vector<std::string> m2_9{}; AWL_REFLECT(m2_13, m2_9) static auto members() { return std::make_tuple(&S2::m2_13, &S2::m2_9); }};
struct S1 { std::optional<std::vector<std::string>> m1_3{}; S2 m1_4{}; uint16_t value1_5 = 19; std::string value1_6 = "dflt"; std::map<std::string, int32_t> x112 = { { "k", 1 } }; std::optional<int64_t> m1_7 = { 8 }; AWL_REFLECT(m1_3, m1_4, value1_5, value1_6, x112, m1_7) static auto members() { return std::make_tuple(&S1::m1_3, &S1::m1_4, &S1::value1_5, &S1::value1_6, &S1::x112, &S1::m1_7); }};
struct S0 { std::optional<std::vector<std::string>> x011{}; std::vector<std::vector<S2>> m0_2{}; AWL_REFLECT(x011, m0_2) static auto members() { return std::make_tuple(&S0::x011, &S0::m0_2); }};
}
namespace v0 { inline void conv(const S2& a, f12::v1::S2& b) { (void)a; (void)b; sv::cv(a.value2_8, b.renamed1_10); sv::cv(a.m2_9, b.m2_9); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f12::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f12::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f12::v2::S2*) { return 1; } }
namespace v1 { inline void conv(const S2& a, f12::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f12::v0::S2*) { return 1; } }
namespace v1 { inline void conv(const S2& a, f12::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f12::v2::S2*) { return 1; } }
namespace v2 { inline void conv(const S2& a, f12::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f12::v0::S2*) { return 1; } }
namespace v2 { inline void conv(const S2& a, f12::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f12::v1::S2*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f12::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.value1_5, b.value1_5); sv::cv(a.value1_6, b.value1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f12::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f12::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.value1_5, b.value1_5); sv::cv(a.value1_6, b.value1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f12::v2::S1*) { return 0; } }
namespace v1 { inline void conv(const S1& a, f12::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.value1_5, b.value1_5); sv::cv(a.value1_6, b.value1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f12::v0::S1*) { return 0; } }
namespace v1 { inline void conv(const S1& a, f12::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.value1_5, b.value1_5); sv::cv(a.value1_6, b.value1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f12::v2::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f12::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.value1_5, b.value1_5); sv::cv(a.value1_6, b.value1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f12::v0::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f12::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.value1_5, b.value1_5); sv::cv(a.value1_6, b.value1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f12::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f12::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f12::v1::S0*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f12::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f12::v2::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f12::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f12::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f12::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f12::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f12::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f12::v0::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f12::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_2, b.m0_2); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f12::v1::S0*) { return 1; } }
}
namespace awl::io {
template <> class FieldMap<f12::v1::S2> { public: static std::string_view GetNewName(std::string_view s) { if (s == "value2_8") return "renamed1_10"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f12::v0::S0> { using extra_tuple = std::tuple<std::map<std::string, int32_t>, sv::Plain8>; };
template <> struct type_converter<f12::v1::S0> { using extra_tuple = std::tuple<std::vector<f12::v1::Dummy>, std::optional<std::vector<std::string>>, uint16_t, std::string, std::optional<int64_t>, std::map<std::string, int32_t>, sv::Plain8>; };
template <> struct type_converter<f12::v2::S0> { using extra_tuple = std::tuple<std::vector<f12::v2::Dummy>, uint16_t, std::string, std::optional<int64_t>, std::deque<double>>; };
}
struct Family12 { static constexpr const char* name = "f12"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f12::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f12::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f12::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f12::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f12::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f12::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f12::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f12::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f12::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family12)
