#!/usr/bin/env python3
"""Writes harness/gen/vts_K.h: families of structures in three versions each, with the conversion the documentation
promises between any two versions spelled out field by field. The output is committed; the generator is deterministic."""
import os, random, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCAL = ["bool", "int32_t", "int64_t", "uint16_t", "int8_t", "double", "float", "std::string", "std::vector<int32_t>", "std::set<int32_t>", "std::map<std::string, int32_t>", "std::optional<int64_t>", "std::variant<int32_t, std::string, bool>", "awl::decimal<uint64_t, 4>", "std::chrono::system_clock::time_point", "std::array<int32_t, 3>", "std::shared_ptr<std::string>", "std::vector<std::string>", "std::unordered_map<int32_t, std::string>", "std::deque<double>", "std::optional<std::vector<std::string>>", "std::map<int32_t, std::set<std::string>>", "sv::Plain8", "sv::Plain32", "std::u32string"]
# the same stored form under another C++ type
ALT = {"int32_t": ["uint32_t"], "uint16_t": ["int16_t"], "int64_t": ["uint64_t"], "std::vector<int32_t>": ["std::deque<int32_t>", "std::vector<uint32_t>"], "std::string": ["std::vector<uint8_t>"], "std::map<std::string, int32_t>": ["std::unordered_map<std::string, int32_t>"], "std::deque<double>": ["std::vector<double>"], "int8_t": ["uint8_t"], "sv::Plain8": ["uint8_t"]}
CONT = ["%s", "%s", "std::vector<%s>", "std::vector<%s>", "std::optional<%s>", "std::map<int32_t, %s>", "std::map<std::string, %s>", "std::variant<int32_t, %s>", "std::shared_ptr<%s>", "std::array<%s, 2>", "std::vector<std::vector<%s>>", "std::optional<std::vector<%s>>", "std::deque<%s>", "std::map<int32_t, std::vector<std::optional<%s>>>"]
CALT = {"std::vector<%s>": "std::deque<%s>", "std::deque<%s>": "std::vector<%s>"}
DEF = {"bool": "true", "int32_t": "17", "int64_t": "-18", "uint16_t": "19", "int8_t": "20", "double": "2.5", "float": "1.5f", "std::string": "\"dflt\"", "std::vector<int32_t>": "{ 4, 5 }", "std::set<int32_t>": "{ 6, 7 }", "std::optional<int64_t>": "{ 8 }", "std::map<std::string, int32_t>": "{ { \"k\", 1 } }", "uint32_t": "21", "std::deque<double>": "{ 0.5 }"}

class Field:
    def __init__(s, uid, typ, ref, name): s.uid, s.typ, s.ref, s.name = uid, typ, ref, name
    def cpp(s, ns): return s.typ if s.ref is None else s.typ % ("%s::S%d" % (ns, s.ref))
    def copy(s): return Field(s.uid, s.typ, s.ref, s.name)

def gen(fam, rnd):
    n = rnd.choice([2, 2, 3, 3, 3]); uid = [0]
    def new(k):
        uid[0] += 1
        if k + 1 < n and rnd.random() < 0.45: return Field(uid[0], rnd.choice(CONT), rnd.randint(k + 1, n - 1), "m%d_%d" % (k, uid[0]))
        return Field(uid[0], rnd.choice(SCAL), None, rnd.choice(["m%d_%d", "value%d_%d", "x%d%d"]) % (k, uid[0]))
    ver = [[[new(k) for _ in range(rnd.randint(1, 6))] for k in range(n)]]
    # every structure is reachable from the first one
    for k in range(1, n):
        if not any(f.ref == k for s in ver[0] for f in s): uid[0] += 1; ver[0][rnd.randint(0, k - 1)].append(Field(uid[0], rnd.choice(CONT), k, "r%d_%d" % (k, uid[0])))
    olds = {}   # uid -> names it had
    for v in (1, 2):
        cur = []
        for k in range(n):
            fs = [f.copy() for f in ver[-1][k]]
            mode = rnd.random()
            for _ in range(rnd.randint(0, 3)):
                r = rnd.random()
                if r < 0.3 and len(fs) > 1: fs.pop(rnd.randrange(len(fs)))
                elif r < 0.6: fs.insert(rnd.randint(0, len(fs)), new(k))
                elif r < 0.75: i = rnd.randrange(len(fs)); j = rnd.randrange(len(fs)); fs[i], fs[j] = fs[j], fs[i]
                elif r < 0.9:
                    f = rnd.choice(fs); olds.setdefault(f.uid, []).append(f.name); uid[0] += 1; f.name = "renamed%d_%d" % (v, uid[0])
                else:
                    f = rnd.choice(fs)
                    if f.ref is None and f.typ in ALT: f.typ = rnd.choice(ALT[f.typ])
                    elif f.ref is not None and f.typ in CALT: f.typ = CALT[f.typ]
            if mode < 0.2: rnd.shuffle(fs)
            cur.append(fs)
        ver.append(cur)
    out = ["namespace f%d {" % fam]
    for v in range(3):
        ns = "v%d" % v; out.append("namespace %s {" % ns)
        out.append("struct Dummy { int32_t q = 0; AWL_REFLECT(q) };")
        for k in reversed(range(n)):
            fs = ver[v][k]; l = ["struct S%d {" % k]
            for f in fs:
                d = DEF.get(f.typ) if f.ref is None and v > 0 or f.typ in ("bool", "int32_t", "double") else None
                l.append(" %s %s%s;" % (f.typ if f.ref is None else f.typ % ("S%d" % f.ref), f.name, (" = " + d) if d else "{}"))
            names = ", ".join(f.name for f in fs)
            l.append(" AWL_REFLECT(%s)" % names)
            l.append(" static auto members() { return std::make_tuple(%s); }" % ", ".join("&S%d::%s" % (k, f.name) for f in fs))
            l.append("};"); out.append("".join(l))
        out.append("}")
    # conversions, found by argument-dependent lookup
    for k in reversed(range(n)):
        for i in range(3):
            for j in range(3):
                if i == j: continue
                l = []
                for f in ver[i][k]:
                    for g in ver[j][k]:
                        if f.uid != g.uid: continue
                        if f.name == g.name or (i < j): l.append("sv::cv(a.%s, b.%s);" % (f.name, g.name))
                left = [f.name for f in ver[i][k] if not any(f.uid == g.uid and (f.name == g.name or i < j) for g in ver[j][k])]
                out.append("namespace v%d { inline void conv(const S%d& a, f%d::v%d::S%d& b) { (void)a; (void)b; %s } }" % (i, k, fam, j, k, " ".join(l)))
                # the fields the reader has to skip
                out.append("namespace v%d { inline constexpr size_t gone(const S%d*, const f%d::v%d::S%d*) { return %d; } }" % (i, k, fam, j, k, len(left)))
    out.append("}")
    out.append("namespace awl::io {")
    for v in (1, 2):
        for k in range(n):
            m = []
            for f in ver[v][k]:
                for o in olds.get(f.uid, []):
                    if o != f.name: m.append('if (s == "%s") return "%s";' % (o, f.name))
            if m: out.append("template <> class FieldMap<f%d::v%d::S%d> { public: static std::string_view GetNewName(std::string_view s) { %s return s; } };" % (fam, v, k, " ".join(m)))
    out.append("}")
    out.append("namespace awl::mp {")
    for v in range(3):
        # the types of fields that only other versions have
        ts = []; reach = {0}
        for k in range(n):
            if k in reach: reach |= {f.ref for f in ver[v][k] if f.ref is not None}
        for w in range(3):
            if w == v: continue
            for k in range(n):
                for f in ver[w][k]:
                    if f.ref is None: t = f.typ
                    elif f.typ == "%s": continue
                    else: t = f.typ % ("f%d::v%d::Dummy" % (fam, v))
                    have = [g.typ if g.ref is None else g.typ % ("f%d::v%d::Dummy" % (fam, v)) for q, s in enumerate(ver[v]) if q in reach for g in s]
                    if t not in have and t not in ts: ts.append(t)
        out.append("template <> struct type_converter<f%d::v%d::S0> { using extra_tuple = std::tuple<%s>; };" % (fam, v, ", ".join(ts)))
    out.append("}")
    out.append("struct Family%d { static constexpr const char* name = \"f%d\"; template <size_t v, size_t k> using S = typename decltype([] { if constexpr (v == 0) { %s } else if constexpr (v == 1) { %s } else { %s } }())::type; static constexpr size_t structs = %d; };" % (fam, fam, *[" else ".join("if constexpr (k == %d) return std::type_identity<f%d::v%d::S%d>{};" % (k, fam, v, k) for k in range(n)) for v in range(3)], n))
    return "\n".join(out)

PER = 1
for part in range(14):
    rnd = random.Random(1000 + part)
    with open(os.path.join(HERE, "harness", "gen", "vts_%d.h" % part), "w") as f:
        f.write("// Generated by tools/gen_vts.py\n#pragma once\n")
        fams = range(part * PER, part * PER + PER)
        for fam in fams: f.write(gen(fam, rnd) + "\n")
        f.write("#define VTS_FAMILIES(X) %s\n" % " ".join("X(Family%d)" % k for k in fams))
