// Generated by tools/gen_vts.py
#pragma once
namespace f1 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { std::optional<int64_t> x13{}; std::optional<std::vector<std::string>> value1_4{}; std::u32string x15{}; float x16{}; int32_t m1_7 = 17; sv::Plain32 x18{}; AWL_REFLECT(x13, value1_4, x15, x16, m1_7, x18) static auto members() { return std::make_tuple(&S1::x13, &S1::value1_4, &S1::x15, &S1::x16, &S1::m1_7, &S1::x18); }};
struct S0 { int64_t x01{}; double value0_2 = 2.5; std::optional<std::vector<S1>> r1_9{}; AWL_REFLECT(x01, value0_2, r1_9) static auto members() { return std::make_tuple(&S0::x01, &S0::value0_2, &S0::r1_9); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { std::optional<std::vector<std::string>> value1_4{}; std::u32string x15{}; float x16 = 1.5f; int32_t m1_7 = 17; sv::Plain32 x18{}; AWL_REFLECT(value1_4, x15, x16, m1_7, x18) static auto members() { return std::make_tuple(&S1::value1_4, &S1::x15, &S1::x16, &S1::m1_7, &S1::x18); }};
struct S0 { int64_t x01 = -18; double value0_2 = 2.5; std::optional<std::vector<S1>> r1_9{}; AWL_REFLECT(x01, value0_2, r1_9) static auto members() { return std::make_tuple(&S0::x01, &S0::value0_2, &S0::r1_9); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S1 { std::optional<std::vector<std::string>> value1_4{}; std::u32string x15{}; float x16 = 1.5f; int32_t m1_7 = 17; sv::Plain32 x18{}; AWL_REFLECT(value1_4, x15, x16, m1_7, x18) static auto members() { return std::make_tuple(&S1::value1_4, &S1::x15, &S1::x16, &S1::m1_7, &S1::x18); }};
struct S0 { std::variant<int32_t, std::string, bool> m0_10{}; std::vector<S1> m0_11{}; double value0_2 = 2.5; int64_t x01 = -18; std::optional<std::vector<S1>> r1_9{}; AWL_REFLECT(m0_10, m0_11, value0_2, x01, r1_9) static auto members() { return std::make_tuple(&S0::m0_10, &S0::m0_11, &S0::value0_2, &S0::x01, &S0::r1_9); }};
}
namespace v0 { inline void conv(const S1& a, f1::v1::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.x16, b.x16); sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f1::v1::S1*) { return 1; } }
namespace v0 { inline void conv(const S1& a, f1::v2::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.x16, b.x16); sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f1::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f1::v0::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.x16, b.x16); sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f1::v0::S1*) { return 0; } }
namespace v1 { inline void conv(const S1& a, f1::v2::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.x16, b.x16); sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f1::v2::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f1::v0::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.x16, b.x16); sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f1::v0::S1*) { return 0; } }
namespace v2 { inline void conv(const S1& a, f1::v1::S1& b) { (void)a; (void)b; sv::cv(a.value1_4, b.value1_4); sv::cv(a.x15, b.x15); sv::cv(a.x16, b.x16); sv::cv(a.m1_7, b.m1_7); sv::cv(a.x18, b.x18); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f1::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f1::v1::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.value0_2, b.value0_2); sv::cv(a.r1_9, b.r1_9); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f1::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f1::v2::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.value0_2, b.value0_2); sv::cv(a.r1_9, b.r1_9); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f1::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f1::v0::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.value0_2, b.value0_2); sv::cv(a.r1_9, b.r1_9); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f1::v0::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f1::v2::S0& b) { (void)a; (void)b; sv::cv(a.x01, b.x01); sv::cv(a.value0_2, b.value0_2); sv::cv(a.r1_9, b.r1_9); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f1::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f1::v0::S0& b) { (void)a; (void)b; sv::cv(a.value0_2, b.value0_2); sv::cv(a.x01, b.x01); sv::cv(a.r1_9, b.r1_9); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f1::v0::S0*) { return 2; } }
namespace v2 { inline void conv(const S0& a, f1::v1::S0& b) { (void)a; (void)b; sv::cv(a.value0_2, b.value0_2); sv::cv(a.x01, b.x01); sv::cv(a.r1_9, b.r1_9); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f1::v1::S0*) { return 2; } }
}
namespace awl::io {
}
namespace awl::mp {
template <> struct type_converter<f1::v0::S0> { using extra_tuple = std::tuple<std::variant<int32_t, std::string, bool>, std::vector<f1::v0::Dummy>>; };
template <> struct type_converter<f1::v1::S0> { using extra_tuple = std::tuple<std::optional<int64_t>, std::variant<int32_t, std::string, bool>, std::vector<f1::v1::Dummy>>; };
template <> struct type_converter<f1::v2::S0> { using extra_tuple = std::tuple<std::optional<int64_t>>; };
}
struct Family1 { static constexpr const char* name = "f1"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f1::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f1::v0::S1>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f1::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f1::v1::S1>{}; } else { if constexpr (k == 0) return std::type_identity<f1::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f1::v2::S1>{}; } }())::type; static constexpr size_t structs = 2; };
#define VTS_FAMILIES(X) X(Family1)
