// Generated by tools/gen_vts.py
#pragma once
namespace f4 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { int64_t x28{}; std::map<std::string, int32_t> value2_9{}; AWL_REFLECT(x28, value2_9) static auto members() { return std::make_tuple(&S2::x28, &S2::value2_9); }};
struct S1 { std::optional<std::vector<std::string>> m1_2{}; std::u32string m1_3{}; S2 m1_4{}; std::optional<int64_t> m1_5{}; sv::Plain32 m1_6{}; S2 m1_7{}; AWL_REFLECT(m1_2, m1_3, m1_4, m1_5, m1_6, m1_7) static auto members() { return std::make_tuple(&S1::m1_2, &S1::m1_3, &S1::m1_4, &S1::m1_5, &S1::m1_6, &S1::m1_7); }};
struct S0 { std::deque<double> x01{}; S1 r1_10{}; AWL_REFLECT(x01, r1_10) static auto members() { return std::make_tuple(&S0::x01, &S0::r1_10); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { bool x211 = true; int64_t x28 = -18; std::map<std::string, int32_t> value2_9 = { { "k", 1 } }; int32_t x212 = 17; AWL_REFLECT(x211, x28, value2_9, x212) static auto members() { return std::make_tuple(&S2::x211, &S2::x28, &S2::value2_9, &S2::x212); }};
struct S1 { std::optional<std::vector<std::string>> m1_2{}; std::u32string m1_3{}; S2 m1_4{}; std::optional<int64_t> m1_5 = { 8 }; sv::Plain32 m1_6{}; S2 m1_7{}; AWL_REFLECT(m1_2, m1_3, m1_4, m1_5, m1_6, m1_7) static auto members() { return std::make_tuple(&S1::m1_2, &S1::m1_3, &S1::m1_4, &S1::m1_5, &S1::m1_6, &S1::m1_7); }};
struct S0 { std::deque<double> x01 = { 0.5 }; S1 r1_10{}; AWL_REFLECT(x01, r1_10) static auto members() { return std::make_tuple(&S0::x01, &S0::r1_10); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { bool x211 = true; int64_t x28 = -18; std::map<std::string, int32_t> value2_9 = { { "k", 1 } }; sv::Plain32 value2_16{}; int32_t x212 = 17; AWL_REFLECT(x211, x28, value2_9, value2_16, x212) static auto members() { return std::make_tuple(&S2::x211, &S2::x28, &S2::value2_9, &S2::value2_16, &S2::x212); }};
struct S1 { S2 m1_4{}; std::optional<std::vector<std::string>> m1_2{}; sv::Plain32 m1_6{}; std::optional<int64_t> m1_5 = { 8 }; S2 m1_7{}; AWL_REFLECT(m1_4, m1_2, m1_6, m1_5, m1_7) static auto members() { return std::make_tuple(&S1::m1_4, &S1::m1_2, &S1::m1_6, &S1::m1_5, &S1::m1_7); }};
struct S0 { double value0_15 = 2.5; std::deque<double> x01 = { 0.5 }; S1 renamed2_14{}; AWL_REFLECT(value0_15, x01, renamed2_14) static auto members() { return std::make_tuple(&S0::value0_15, &S0::x01, &S0::renamed2_14); }};
}
namespace v0 { inline void conv(const S2& a, f4::v1::S2& b) { (void)a; (void)b; sv::cv(a.x28, b.x28); sv::cv(a.value2_9, b.value2_9); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f4::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f4::v2::S2& b) { (void)a; (void)b; sv::cv(a.x28, b.x28); sv::cv(a.value2_9, b.value2_9); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f4::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f4::v0::S2& b) { (void)a; (void)b; sv::cv(a.x28, b.x28); sv::cv(a.value2_9, b.value2_9); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f4::v0::S2*) { return 2; } }
namespace v1 { inline void conv(const S2& a, f4::v2::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.x28, b.x28); sv::cv(a.value2_9, b.value2_9); sv::cv(a.x212, b.x212); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f4::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f4::v0::S2& b) { (void)a; (void)b; sv::cv(a.x28, b.x28); sv::cv(a.value2_9, b.value2_9); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f4::v0::S2*) { return 3; } }
namespace v2 { inline void conv(const S2& a, f4::v1::S2& b) { (void)a; (void)b; sv::cv(a.x211, b.x211); sv::cv(a.x28, b.x28); sv::cv(a.value2_9, b.value2_9); sv::cv(a.x212, b.x212); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f4::v1::S2*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f4::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f4::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f4::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.m1_4, b.m1_4); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f4::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f4::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.m1_3, b.m1_3); sv::cv(a.m1_4, b.m1_4); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f4::v0::S1*) { return 0; } }
namespace v1 { inline void conv(const S1& a, f4::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_2, b.m1_2); sv::cv(a.m1_4, b.m1_4); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_7, b.m1_7); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f4::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f4::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_4, b.m1_4); sv::cv(a.m1_2, b.m1_2); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_7, b.m1_7); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f4::v0::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f4::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_4, b.m1_4); sv::cv(a.m1_2, b.m1_2); sv::cv(a.m1_6, b.m1_6); sv::cv(a.m1_5, b.m1_5); sv::cv(a.m1_7, b.m1_7); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f4::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f4::v1::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.r1_10, b.r1_10); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f4::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f4::v2::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.r1_10, b.renamed2_14); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f4::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f4::v0::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.r1_10, b.r1_10); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f4::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f4::v2::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.r1_10, b.renamed2_14); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f4::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f4::v0::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f4::v0::S0*) { return 2; } }
namespace v2 { inline void conv(const S0& a, f4::v1::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f4::v1::S0*) { return 2; } }
}
namespace awl::io {
template <> class FieldMap<f4::v1::S0> { public: static std::string_view GetNewName(std::string_view s) { if (s == "renamed2_13") return "r1_10"; return s; } };
template <> class FieldMap<f4::v2::S0> { public: static std::string_view GetNewName(std::string_view s) { if (s == "r1_10") return "renamed2_14"; if (s == "renamed2_13") return "renamed2_14"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f4::v0::S0> { using extra_tuple = std::tuple<bool, int32_t, double>; };
template <> struct type_converter<f4::v1::S0> { using extra_tuple = std::tuple<double>; };
template <> struct type_converter<f4::v2::S0> { using extra_tuple = std::tuple<std::u32string>; };
}
struct Family4 { static constexpr const char* name = "f4"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f4::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f4::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f4::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f4::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f4::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f4::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f4::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f4::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f4::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family4)
