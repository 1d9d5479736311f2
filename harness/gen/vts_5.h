// Generated by tools/gen_vts.py
#pragma once
namespace f5 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::map<std::string, int32_t> value2_7{}; AWL_REFLECT(value2_7) static auto members() { return std::make_tuple(&S2::value2_7); }};
struct S1 { std::map<int32_t, std::set<std::string>> x15{}; int32_t value1_6 = 17; AWL_REFLECT(x15, value1_6) static auto members() { return std::make_tuple(&S1::x15, &S1::value1_6); }};
struct S0 { std::unordered_map<int32_t, std::string> x01{}; std::optional<int64_t> x02{}; std::array<int32_t, 3> m0_3{}; std::map<std::string, int32_t> value0_4{}; std::optional<S1> r1_8{}; S2 r2_9{}; AWL_REFLECT(x01, x02, m0_3, value0_4, r1_8, r2_9) static auto members() { return std::make_tuple(&S0::x01, &S0::x02, &S0::m0_3, &S0::value0_4, &S0::r1_8, &S0::r2_9); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::map<std::string, int32_t> value2_7 = { { "k", 1 } }; AWL_REFLECT(value2_7) static auto members() { return std::make_tuple(&S2::value2_7); }};
struct S1 { std::map<int32_t, std::set<std::string>> x15{}; int32_t renamed1_10 = 17; AWL_REFLECT(x15, renamed1_10) static auto members() { return std::make_tuple(&S1::x15, &S1::renamed1_10); }};
struct S0 { std::unordered_map<int32_t, std::string> x01{}; std::optional<int64_t> x02 = { 8 }; std::array<int32_t, 3> m0_3{}; std::map<std::string, int32_t> value0_4 = { { "k", 1 } }; std::optional<S1> r1_8{}; S2 r2_9{}; AWL_REFLECT(x01, x02, m0_3, value0_4, r1_8, r2_9) static auto members() { return std::make_tuple(&S0::x01, &S0::x02, &S0::m0_3, &S0::value0_4, &S0::r1_8, &S0::r2_9); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::map<std::string, int32_t> value2_7 = { { "k", 1 } }; AWL_REFLECT(value2_7) static auto members() { return std::make_tuple(&S2::value2_7); }};
struct S1 { std::map<int32_t, std::set<std::string>> x15{}; int32_t renamed1_10 = 17; AWL_REFLECT(x15, renamed1_10) static auto members() { return std::make_tuple(&S1::x15, &S1::renamed1_10); }};
struct S0 { std::unordered_map<int32_t, std::string> x01{}; std::optional<int64_t> x02 = { 8 }; std::array<int32_t, 3> renamed2_11{}; std::map<std::string, int32_t> x012 = { { "k", 1 } }; std::map<std::string, int32_t> value0_4 = { { "k", 1 } }; std::optional<S1> r1_8{}; S2 r2_9{}; AWL_REFLECT(x01, x02, renamed2_11, x012, value0_4, r1_8, r2_9) static auto members() { return std::make_tuple(&S0::x01, &S0::x02, &S0::renamed2_11, &S0::x012, &S0::value0_4, &S0::r1_8, &S0::r2_9); }};
}
namespace v0 { inline void conv(const S2& a, f5::v1::S2& b) { (void)a; (void)b; sv::cv(a.value2_7, b.value2_7); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f5::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f5::v2::S2& b) { (void)a; (void)b; sv::cv(a.value2_7, b.value2_7); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f5::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f5::v0::S2& b) { (void)a; (void)b; sv::cv(a.value2_7, b.value2_7); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f5::v0::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f5::v2::S2& b) { (void)a; (void)b; sv::cv(a.value2_7, b.value2_7); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f5::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f5::v0::S2& b) { (void)a; (void)b; sv::cv(a.value2_7, b.value2_7); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f5::v0::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f5::v1::S2& b) { (void)a; (void)b; sv::cv(a.value2_7, b.value2_7); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f5::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f5::v1::S1& b) { (void)a; (void)b; sv::cv(a.x15, b.x15); sv::cv(a.value1_6, b.renamed1_10); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f5::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f5::v2::S1& b) { (void)a; (void)b; sv::cv(a.x15, b.x15); sv::cv(a.value1_6, b.renamed1_10); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f5::v2::S1*) { return 0; } }
namespace v1 { inline void conv(const S1& a, f5::v0::S1& b) { (void)a; (void)b; sv::cv(a.x15, b.x15); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f5::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f5::v2::S1& b) { (void)a; (void)b; sv::cv(a.x15, b.x15); sv::cv(a.renamed1_10, b.renamed1_10); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f5::v2::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f5::v0::S1& b) { (void)a; (void)b; sv::cv(a.x15, b.x15); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f5::v0::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f5::v1::S1& b) { (void)a; (void)b; sv::cv(a.x15, b.x15); sv::cv(a.renamed1_10, b.renamed1_10); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f5::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f5::v1::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.x02, b.x02); sv::cv(a.m0_3, b.m0_3); sv::cv(a.value0_4, b.value0_4); sv::cv(a.r1_8, b.r1_8); sv::cv(a.r2_9, b.r2_9); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f5::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f5::v2::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.x02, b.x02); sv::cv(a.m0_3, b.renamed2_11); sv::cv(a.value0_4, b.value0_4); sv::cv(a.r1_8, b.r1_8); sv::cv(a.r2_9, b.r2_9); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f5::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f5::v0::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.x02, b.x02); sv::cv(a.m0_3, b.m0_3); sv::cv(a.value0_4, b.value0_4); sv::cv(a.r1_8, b.r1_8); sv::cv(a.r2_9, b.r2_9); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f5::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f5::v2::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.x02, b.x02); sv::cv(a.m0_3, b.renamed2_11); sv::cv(a.value0_4, b.value0_4); sv::cv(a.r1_8, b.r1_8); sv::cv(a.r2_9, b.r2_9); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f5::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f5::v0::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.x02, b.x02); sv::cv(a.value0_4, b.value0_4); sv::cv(a.r1_8, b.r1_8); sv::cv(a.r2_9, b.r2_9); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f5::v0::S0*) { return 2; } }
namespace v2 { inline void conv(const S0& a, f5::v1::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.x02, b.x02); sv::cv(a.value0_4, b.value0_4); sv::cv(a.r1_8, b.r1_8); sv::cv(a.r2_9, b.r2_9); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f5::v1::S0*) { return 2; } }
}
namespace awl::io {
template <> class FieldMap<f5::v1::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "value1_6") return "renamed1_10"; return s; } };
template <> class FieldMap<f5::v2::S0> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m0_3") return "renamed2_11"; return s; } };
template <> class FieldMap<f5::v2::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "value1_6") return "renamed1_10"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f5::v0::S0> { using extra_tuple = std::tuple<>; };
template <> struct type_converter<f5::v1::S0> { using extra_tuple = std::tuple<>; };
template <> struct type_converter<f5::v2::S0> { using extra_tuple = std::tuple<>; };
}
struct Family5 { static constexpr const char* name = "f5"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f5::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f5::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f5::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f5::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f5::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f5::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f5::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f5::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f5::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family5)
