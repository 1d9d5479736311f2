// Generated by tools/gen_vts.py
#pragma once
namespace f8 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::optional<int64_t> m2_10{}; std::string m2_11{}; AWL_REFLECT(m2_10, m2_11) static auto members() { return std::make_tuple(&S2::m2_10, &S2::m2_11); }};
struct S1 { std::map<std::string, int32_t> value1_5{}; std::vector<S2> m1_6{}; std::optional<std::vector<S2>> m1_7{}; std::variant<int32_t, std::string, bool> value1_8{}; S2 m1_9{}; AWL_REFLECT(value1_5, m1_6, m1_7, value1_8, m1_9) static auto members() { return std::make_tuple(&S1::value1_5, &S1::m1_6, &S1::m1_7, &S1::value1_8, &S1::m1_9); }};
struct S0 { std::optional<std::vector<S1>> m0_1{}; std::vector<std::vector<S1>> m0_2{}; std::unordered_map<int32_t, std::string> m0_3{}; std::map<int32_t, std::set<std::string>> m0_4{}; AWL_REFLECT(m0_1, m0_2, m0_3, m0_4) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::m0_3, &S0::m0_4); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::optional<int64_t> m2_10 = { 8 }; std::string m2_11 = "dflt"; AWL_REFLECT(m2_10, m2_11) static auto members() { return std::make_tuple(&S2::m2_10, &S2::m2_11); }};
struct S1 { std::map<std::string, int32_t> value1_5 = { { "k", 1 } }; S2 m1_9{}; std::vector<S2> m1_6{}; std::variant<int32_t, std::string, bool> value1_8{}; std::optional<std::vector<S2>> m1_7{}; std::variant<int32_t, S2> m1_14{}; AWL_REFLECT(value1_5, m1_9, m1_6, value1_8, m1_7, m1_14) static auto members() { return std::make_tuple(&S1::value1_5, &S1::m1_9, &S1::m1_6, &S1::value1_8, &S1::m1_7, &S1::m1_14); }};
struct S0 { std::optional<std::vector<S1>> m0_1{}; std::unordered_map<int32_t, std::string> m0_3{}; awl::decimal<uint64_t, 4> value0_13{}; std::map<int32_t, std::set<std::string>> m0_4{}; std::map<std::string, int32_t> x012 = { { "k", 1 } }; AWL_REFLECT(m0_1, m0_3, value0_13, m0_4, x012) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_3, &S0::value0_13, &S0::m0_4, &S0::x012); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::optional<int64_t> m2_10 = { 8 }; std::string renamed2_15 = "dflt"; AWL_REFLECT(m2_10, renamed2_15) static auto members() { return std::make_tuple(&S2::m2_10, &S2::renamed2_15); }};
struct S1 { S2 m1_9{}; std::vector<S2> m1_6{}; std::variant<int32_t, std::string, bool> value1_8{}; AWL_REFLECT(m1_9, m1_6, value1_8) static auto members() { return std::make_tuple(&S1::m1_9, &S1::m1_6, &S1::value1_8); }};
struct S0 { std::optional<std::vector<S1>> m0_1{}; std::unordered_map<int32_t, std::string> m0_3{}; awl::decimal<uint64_t, 4> value0_13{}; std::map<int32_t, std::set<std::string>> m0_4{}; std::map<std::string, int32_t> x012 = { { "k", 1 } }; AWL_REFLECT(m0_1, m0_3, value0_13, m0_4, x012) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_3, &S0::value0_13, &S0::m0_4, &S0::x012); }};
}
namespace v0 { inline void conv(const S2& a, f8::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_10, b.m2_10); sv::cv(a.m2_11, b.m2_11); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f8::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f8::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_10, b.m2_10); sv::cv(a.m2_11, b.renamed2_15); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f8::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f8::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_10, b.m2_10); sv::cv(a.m2_11, b.m2_11); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f8::v0::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f8::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_10, b.m2_10); sv::cv(a.m2_11, b.renamed2_15); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f8::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f8::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_10, b.m2_10); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f8::v0::S2*) { return 1; } }
namespace v2 { inline void conv(const S2& a, f8::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_10, b.m2_10); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f8::v1::S2*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f8::v1::S1& b) { (void)a; (void)b; sv::cv(a.value1_5, b.value1_5); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_7, b.m1_7); sv::cv(a.value1_8, b.value1_8); sv::cv(a.m1_9, b.m1_9); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f8::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f8::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); sv::cv(a.m1_9, b.m1_9); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f8::v2::S1*) { return 2; } }
namespace v1 { inline void conv(const S1& a, f8::v0::S1& b) { (void)a; (void)b; sv::cv(a.value1_5, b.value1_5); sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); sv::cv(a.m1_7, b.m1_7); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f8::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f8::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f8::v2::S1*) { return 3; } }
namespace v2 { inline void conv(const S1& a, f8::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f8::v0::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f8::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_9, b.m1_9); sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f8::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f8::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f8::v1::S0*) { return 1; } }
namespace v0 { inline void conv(const S0& a, f8::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f8::v2::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f8::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f8::v0::S0*) { return 2; } }
namespace v1 { inline void conv(const S0& a, f8::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.value0_13, b.value0_13); sv::cv(a.m0_4, b.m0_4); sv::cv(a.x012, b.x012); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f8::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f8::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_4, b.m0_4); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f8::v0::S0*) { return 2; } }
namespace v2 { inline void conv(const S0& a, f8::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_3, b.m0_3); sv::cv(a.value0_13, b.value0_13); sv::cv(a.m0_4, b.m0_4); sv::cv(a.x012, b.x012); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f8::v1::S0*) { return 0; } }
}
namespace awl::io {
template <> class FieldMap<f8::v2::S2> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m2_11") return "renamed2_15"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f8::v0::S0> { using extra_tuple = std::tuple<awl::decimal<uint64_t, 4>, std::variant<int32_t, f8::v0::Dummy>>; };
template <> struct type_converter<f8::v1::S0> { using extra_tuple = std::tuple<std::vector<std::vector<f8::v1::Dummy>>>; };
template <> struct type_converter<f8::v2::S0> { using extra_tuple = std::tuple<std::vector<std::vector<f8::v2::Dummy>>, std::variant<int32_t, f8::v2::Dummy>>; };
}
struct Family8 { static constexpr const char* name = "f8"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f8::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f8::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f8::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f8::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f8::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f8::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f8::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f8::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f8::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family8)
