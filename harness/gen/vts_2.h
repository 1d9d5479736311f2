// Generated by tools/gen_vts.py
#pragma once
namespace f2 {
namespace v0 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { std::set<int32_t> x210{}; int64_t m2_11{}; awl::decimal<uint64_t, 4> x212{}; int64_t x213{}; int64_t value2_14{}; AWL_REFLECT(x210, m2_11, x212, x213, value2_14) static auto members() { return std::make_tuple(&S2::x210, &S2::m2_11, &S2::x212, &S2::x213, &S2::value2_14); }};
struct S1 { std::shared_ptr<S2> m1_6{}; double value1_7 = 2.5; std::optional<std::vector<std::string>> x18{}; std::map<int32_t, std::vector<std::optional<S2>>> m1_9{}; AWL_REFLECT(m1_6, value1_7, x18, m1_9) static auto members() { return std::make_tuple(&S1::m1_6, &S1::value1_7, &S1::x18, &S1::m1_9); }};
struct S0 { std::vector<S1> m0_1{}; std::variant<int32_t, S1> m0_2{}; std::deque<double> m0_3{}; awl::decimal<uint64_t, 4> x04{}; std::vector<S1> m0_5{}; AWL_REFLECT(m0_1, m0_2, m0_3, x04, m0_5) static auto members() { return std::make_tuple(&S0::m0_1, &S0::m0_2, &S0::m0_3, &S0::x04, &S0::m0_5); }};
}
namespace v1 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { awl::decimal<uint64_t, 4> x212{}; int64_t x213 = -18; int64_t value2_14 = -18; int64_t m2_11 = -18; AWL_REFLECT(x212, x213, value2_14, m2_11) static auto members() { return std::make_tuple(&S2::x212, &S2::x213, &S2::value2_14, &S2::m2_11); }};
struct S1 { std::shared_ptr<S2> renamed1_16{}; double value1_7 = 2.5; std::optional<std::vector<std::string>> x18{}; std::map<int32_t, std::vector<std::optional<S2>>> m1_9{}; AWL_REFLECT(renamed1_16, value1_7, x18, m1_9) static auto members() { return std::make_tuple(&S1::renamed1_16, &S1::value1_7, &S1::x18, &S1::m1_9); }};
struct S0 { int64_t x015 = -18; std::vector<S1> m0_1{}; std::variant<int32_t, S1> m0_2{}; std::deque<double> m0_3 = { 0.5 }; awl::decimal<uint64_t, 4> x04{}; std::vector<S1> m0_5{}; AWL_REFLECT(x015, m0_1, m0_2, m0_3, x04, m0_5) static auto members() { return std::make_tuple(&S0::x015, &S0::m0_1, &S0::m0_2, &S0::m0_3, &S0::x04, &S0::m0_5); }};
}
namespace v2 {
struct Dummy { int32_t q = 0; AWL_REFLECT(q) };
struct S2 { awl::decimal<uint64_t, 4> x212{}; int64_t x213 = -18; int64_t value2_14 = -18; int64_t m2_11 = -18; AWL_REFLECT(x212, x213, value2_14, m2_11) static auto members() { return std::make_tuple(&S2::x212, &S2::x213, &S2::value2_14, &S2::m2_11); }};
struct S1 { std::shared_ptr<S2> renamed1_16{}; std::optional<std::vector<std::string>> x18{}; std::map<int32_t, std::vector<std::optional<S2>>> m1_9{}; AWL_REFLECT(renamed1_16, x18, m1_9) static auto members() { return std::make_tuple(&S1::renamed1_16, &S1::x18, &S1::m1_9); }};
struct S0 { int64_t x015 = -18; std::vector<S1> m0_5{}; awl::decimal<uint64_t, 4> x04{}; std::variant<int32_t, S1> m0_2{}; std::deque<double> m0_3 = { 0.5 }; std::vector<S1> m0_1{}; AWL_REFLECT(x015, m0_5, x04, m0_2, m0_3, m0_1) static auto members() { return std::make_tuple(&S0::x015, &S0::m0_5, &S0::x04, &S0::m0_2, &S0::m0_3, &S0::m0_1); }};
}
namespace v0 { inline void conv(const S2& a, f2::v1::S2& b) { (void)a; (void)b; sv::cv(a.m2_11, b.m2_11); sv::cv(a.x212, b.x212); sv::cv(a.x213, b.x213); sv::cv(a.value2_14, b.value2_14); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f2::v1::S2*) { return 1; } }
namespace v0 { inline void conv(const S2& a, f2::v2::S2& b) { (void)a; (void)b; sv::cv(a.m2_11, b.m2_11); sv::cv(a.x212, b.x212); sv::cv(a.x213, b.x213); sv::cv(a.value2_14, b.value2_14); } }
namespace v0 { inline constexpr size_t gone(const S2*, const f2::v2::S2*) { return 1; } }
namespace v1 { inline void conv(const S2& a, f2::v0::S2& b) { (void)a; (void)b; sv::cv(a.x212, b.x212); sv::cv(a.x213, b.x213); sv::cv(a.value2_14, b.value2_14); sv::cv(a.m2_11, b.m2_11); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f2::v0::S2*) { return 0; } }
namespace v1 { inline void conv(const S2& a, f2::v2::S2& b) { (void)a; (void)b; sv::cv(a.x212, b.x212); sv::cv(a.x213, b.x213); sv::cv(a.value2_14, b.value2_14); sv::cv(a.m2_11, b.m2_11); } }
namespace v1 { inline constexpr size_t gone(const S2*, const f2::v2::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f2::v0::S2& b) { (void)a; (void)b; sv::cv(a.x212, b.x212); sv::cv(a.x213, b.x213); sv::cv(a.value2_14, b.value2_14); sv::cv(a.m2_11, b.m2_11); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f2::v0::S2*) { return 0; } }
namespace v2 { inline void conv(const S2& a, f2::v1::S2& b) { (void)a; (void)b; sv::cv(a.x212, b.x212); sv::cv(a.x213, b.x213); sv::cv(a.value2_14, b.value2_14); sv::cv(a.m2_11, b.m2_11); } }
namespace v2 { inline constexpr size_t gone(const S2*, const f2::v1::S2*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f2::v1::S1& b) { (void)a; (void)b; sv::cv(a.m1_6, b.renamed1_16); sv::cv(a.value1_7, b.value1_7); sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f2::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S1& a, f2::v2::S1& b) { (void)a; (void)b; sv::cv(a.m1_6, b.renamed1_16); sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); } }
namespace v0 { inline constexpr size_t gone(const S1*, const f2::v2::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f2::v0::S1& b) { (void)a; (void)b; sv::cv(a.value1_7, b.value1_7); sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f2::v0::S1*) { return 1; } }
namespace v1 { inline void conv(const S1& a, f2::v2::S1& b) { (void)a; (void)b; sv::cv(a.renamed1_16, b.renamed1_16); sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); } }
namespace v1 { inline constexpr size_t gone(const S1*, const f2::v2::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f2::v0::S1& b) { (void)a; (void)b; sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f2::v0::S1*) { return 1; } }
namespace v2 { inline void conv(const S1& a, f2::v1::S1& b) { (void)a; (void)b; sv::cv(a.renamed1_16, b.renamed1_16); sv::cv(a.x18, b.x18); sv::cv(a.m1_9, b.m1_9); } }
namespace v2 { inline constexpr size_t gone(const S1*, const f2::v1::S1*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f2::v1::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.x04, b.x04); sv::cv(a.m0_5, b.m0_5); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f2::v1::S0*) { return 0; } }
namespace v0 { inline void conv(const S0& a, f2::v2::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.x04, b.x04); sv::cv(a.m0_5, b.m0_5); } }
namespace v0 { inline constexpr size_t gone(const S0*, const f2::v2::S0*) { return 0; } }
namespace v1 { inline void conv(const S0& a, f2::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.x04, b.x04); sv::cv(a.m0_5, b.m0_5); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f2::v0::S0*) { return 1; } }
namespace v1 { inline void conv(const S0& a, f2::v2::S0& b) { (void)a; (void)b; sv::cv(a.x015, b.x015); sv::cv(a.m0_1, b.m0_1); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.x04, b.x04); sv::cv(a.m0_5, b.m0_5); } }
namespace v1 { inline constexpr size_t gone(const S0*, const f2::v2::S0*) { return 0; } }
namespace v2 { inline void conv(const S0& a, f2::v0::S0& b) { (void)a; (void)b; sv::cv(a.m0_5, b.m0_5); sv::cv(a.x04, b.x04); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_1, b.m0_1); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f2::v0::S0*) { return 1; } }
namespace v2 { inline void conv(const S0& a, f2::v1::S0& b) { (void)a; (void)b; sv::cv(a.x015, b.x015); sv::cv(a.m0_5, b.m0_5); sv::cv(a.x04, b.x04); sv::cv(a.m0_2, b.m0_2); sv::cv(a.m0_3, b.m0_3); sv::cv(a.m0_1, b.m0_1); } }
namespace v2 { inline constexpr size_t gone(const S0*, const f2::v1::S0*) { return 0; } }
}
namespace awl::io {
template <> class FieldMap<f2::v1::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m1_6") return "renamed1_16"; return s; } };
template <> class FieldMap<f2::v2::S1> { public: static std::string_view GetNewName(std::string_view s) { if (s == "m1_6") return "renamed1_16"; return s; } };
}
namespace awl::mp {
template <> struct type_converter<f2::v0::S0> { using extra_tuple = std::tuple<>; };
template <> struct type_converter<f2::v1::S0> { using extra_tuple = std::tuple<std::set<int32_t>>; };
template <> struct type_converter<f2::v2::S0> { using extra_tuple = std::tuple<double, std::set<int32_t>>; };
}
struct Family2 { static constexpr const char* name = "f2"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { if constexpr (k == 0) return std::type_identity<f2::v0::S0>{}; else if constexpr (k == 1) return std::type_identity<f2::v0::S1>{}; else if constexpr (k == 2) return std::type_identity<f2::v0::S2>{}; } else if constexpr (v == 1) { if constexpr (k == 0) return std::type_identity<f2::v1::S0>{}; else if constexpr (k == 1) return std::type_identity<f2::v1::S1>{}; else if constexpr (k == 2) return std::type_identity<f2::v1::S2>{}; } else { if constexpr (k == 0) return std::type_identity<f2::v2::S0>{}; else if constexpr (k == 1) return std::type_identity<f2::v2::S1>{}; else if constexpr (k == 2) return std::type_identity<f2::v2::S2>{}; } }())::type; static constexpr size_t structs = 3; };
#define VTS_FAMILIES(X) X(Family2)
