// Generated by tools/gen_vts.py
#pragma once
namespace f10 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { sv::Plain8 m2_9{}; int8_t x210{}; double x211 = 2.5; bool m2_12 = true; awl::decimal<uint64_t, 4> m2_13{}; sv::Plain8 m2_14{}; AWL_REFLECT(m2_9, x210, x211, m2_12, m2_13, m2_14) static auto members() { return std::make_tuple(&S2::m2_9, &S2::x210, &S2::x211, &S2::m2_12, &S2::m2_13, &S2::m2_14); }};
struct S1 { uint16_t x13{}; std::shared_ptr<std::string> value1_4{}; std::unordered_map<int32_t, std::string> x15{}; std::variant<int32_t, S2> m1_6{}; bool x17 = true; sv::Plain32 value1_8{}; AWL_REFLECT(x13, value1_4, x15, m1_6, x17, value1_8) static auto members() { return std::make_tuple(&S1::x13, &S1::value1_4, &S1::x15, &S1::m1_6, &S1::x17, &S1::value1_8); }};
struct S0 { awl::decimal<uint64_t, 4> value0_1{}; std::vector<S2> m0_2{}; S1 r1_15{}; AWL_REFLECT(value0_1, m0_2, r1_15) static auto members() { return std::make_tuple(&S0::value0_1, &S0::m0_2, &S0::r1_15); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { sv::Plain8 m2_9{}; std::shared_ptr<std::string> m2_16{}; int8_t x210 = 20; double x211 = 2.5; bool m2_12 = true; std::optional<std::vector<std::string>> m2_17{}; awl::decimal<uint64_t, 4> m2_13{}; sv::Plain8 m2_14{}; AWL_REFLECT(m2_9, m2_16, x210, x211, m2_12, m2_17, m2_13, m2_14) static auto members() { return std::make_tuple(&S2::m2_9, &S2::m2_16, &S2::x210, &S2::x211, &S2::m2_12, &S2::m2_17, &S2::m2_13, &S2::m2_14); }};
struct S1 { std::shared_ptr<std::string> value1_4{}; std::unordered_map<int32_t, std::string> x15{}; std::variant<int32_t, S2> m1_6{}; bool x17 = true; sv::Plain32 value1_8{}; AWL_REFLECT(value1_4, x15, m1_6, x17, value1_8) static auto members() { return std::make_tuple(&S1::value1_4, &S1::x15, &S1::m1_6, &S1::x17, &S1::value1_8); }};
struct S0 { awl::decimal<uint64_t, 4> value0_1{}; std::vector<S2> m0_2{}; S1 r1_15{}; AWL_REFLECT(value0_1, m0_2, r1_15) static auto members() { return std::make_tuple(&S0::value0_1, &S0::m0_2, &S0::r1_15); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { sv::Plain8 m2_9{}; std::shared_ptr<std::string> m2_16{}; int8_t x210 = 20; double x211 = 2.5; bool m2_12 = true; std::optional<std::vector<std::string>> m2_17{}; awl::decimal<uint64_t, 4> m2_13{}; sv::Plain8 m2_14{}; AWL_REFLECT(m2_9, m2_16, x210, x211, m2_12, m2_17, m2_13, m2_14) static auto members() { return std::make_tuple(&S2::m2_9, &S2::m2_16, &S2::x210, &S2::x211, &S2::m2_12, &S2::m2_17, &S2::m2_13, &S2::m2_14); }};
struct S1 { std::variant<int32_t, S2> m1_6{}; sv::Plain32 value1_8{}; std::unordered_map<int32_t, std::string> x15{}; std::shared_ptr<std::string> value1_4{}; bool x17 = true; AWL_REFLECT(m1_6, value1_8, x15, value1_4, x17) static auto members() { return std::make_tuple(&S1::m1_6, &S1::value1_8, &S1::x15, &S1::value1_4, &S1::x17); }};
struct S0 { sv::Plain32 x018{}; awl::decimal<uint64_t, 4> value0_1{}; std::vector<S2> renamed2_19{}; S1 r1_15{}; AWL_REFLECT(x018, value0_1, renamed2_19, r1_15) static auto members() { return std::make_tuple(&S0::x018, &S0::value0_1, &S0::renamed2_19, &S0::r1_15); }};
}
namespace v0 { inline void conv(const S2& a, f10::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); sv::cv(a.x210, b.x210); sv::cv(a.x211, b.x211); sv::cv(a.m2_12, b.m2_12); sv::cv(a.m2_13, b.m2_13); sv::cv(a.m2_14, b.m2_14); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f10::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S2& a, f10::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); sv::cv(a.x210, b.x210); sv::cv(a.x211, b.x211); sv::cv(a.m2_12, b.m2_12); sv::cv(a.m2_13, b.m2_13); sv::cv(a.m2_14, b.m2_14); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f10::v2::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f10::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); sv::cv(a.x210, b.x210); sv::cv(a.x211, b.x211); sv::cv(a.m2_12, b.m2_12); sv::cv(a.m2_13, b.m2_13); sv::cv(a.m2_14, b.m2_14); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f10::v0::S2*) { return 2; } }
namespace v1 { inline void conv(const S2& a, f10::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); sv::cv(a.m2_16, b.m2_16); sv::cv(a.x210, b.x210); sv::cv(a.x211, b.x211); sv::cv(a.m2_12, b.m2_12); sv::cv(a.m2_17, b.m2_17); sv::cv(a.m2_13, b.m2_13); sv::cv(a.m2_14, b.m2_14); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f10::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f10::v0::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); sv::cv(a.x210, b.x210); sv::cv(a.x211, b.x211); sv::cv(a.m2_12, b.m2_12); sv::cv(a.m2_13, b.m2_13); sv::cv(a.m2_14, b.m2_14); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f10::v0::S2*) { return 2; } }
namespace v2 { inline void conv(const S2& a, f10::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_9, b.m2_9); sv::cv(a.m2_16, b.m2_16); sv::cv(a.x210, b.x210); sv::cv(a.x211, b.x211); sv::cv(a.m2_12, b.m2_12); sv::cv(a.m2_17, b.m2_17); sv::cv(a.m2_13, b.m2_13); sv::cv(a.m2_14, b.m2_14); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f10::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f10::v1::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.m1_6, b.m1_6); sv::cv(a.x17, b.x17); sv::cv(a.value1_8, b.value1_8); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f10::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f10::v2::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.m1_6, b.m1_6); sv::cv(a.x17, b.x17); sv::cv(a.value1_8, b.value1_8); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f10::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f10::v0::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.m1_6, b.m1_6); sv::cv(a.x17, b.x17); sv::cv(a.value1_8, b.value1_8); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f10::v0::S1*) { return 0; } }
namespace v1 { inline void conv(const S1& a, f10::v2::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.m1_6, b.m1_6); sv::cv(a.x17, b.x17); sv::cv(a.value1_8, b.value1_8); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f10::v2::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f10::v0::S1& b) { (void)a; (void)b; sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); sv::cv(a.x15, b.x15); sv::cv(a.value1_4, b.value1_4); sv::cv(a.x17, b.x17); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f10::v0::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f10::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_6, b.m1_6); sv::cv(a.value1_8, b.value1_8); sv::cv(a.x15, b.x15); sv::cv(a.value1_4, b.value1_4); sv::cv(a.x17, b.x17); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f10::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f10::v1::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.r1_15, b.r1_15); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f10::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f10::v2::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_2, b.renamed2_19); sv::cv(a.r1_15, b.r1_15); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f10::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f10::v0::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.r1_15, b.r1_15); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f10::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f10::v2::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.m0_2, b.renamed2_19); sv::cv(a.r1_15, b.r1_15); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f10::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f10::v0::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.r1_15, b.r1_15); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f10::v0::S0*) { return 2; } }
namespace v2 { inline void conv(const S0& a, f10::v1::S0& b) { (void)a; (void)b; sv::cv(a.value0_1, b.value0_1); sv::cv(a.r1_15, b.r1_15); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f10::v1::S0*) { return 2; } }
}
namespace awl::io {
template <> class FieldMap<f10::v2::S0> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m0_2") return "renamed2_19"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f10::v0::S0> { using extra_tuple = std::tuple<std::optional<std::vector<std::string>>>; };
template <> struct type_converter<f10::v1::S0> { using extra_tuple = std::tuple<uint16_t>; };
template <> struct type_converter<f10::v2::S0> { using extra_tuple = std::tuple<uint16_t>; };
}
struct Family10 { static constexpr const char* name = "f10"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f10::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f10::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f10::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f10::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f10::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f10::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f10::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f10::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f10::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family10)
