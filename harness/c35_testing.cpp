// C35: the test framework runs what was asked and reports what happened.
#include "vh.h"
#include "Awl/Testing/TestConsole.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/CommandLineProvider.h"
#include "Awl/WatchDog.h"
#include "Awl/StdConsole.h"
#include <deque>
#include <list>
#include <limits>
#include <set>
#include <sstream>
#include <thread>
using vh::Case; using vh::fmt;
namespace at = awl::testing;

// Registered by the macros before main().
static std::vector<std::string> macro_log;
AWT_TEST(MacroOne) { AWT_UNUSED_CONTEXT; macro_log.push_back("MacroOne_Test"); }
AWT_TEST(MacroTwo) { context.out << "two"; macro_log.push_back("MacroTwo_Test"); }
AWT_BENCHMARK(MacroOne1) { AWT_UNUSED_CONTEXT; macro_log.push_back("MacroOne1_Benchmark"); }
AWT_EXAMPLE(MacroOne2) { AWT_UNUSED_CONTEXT; macro_log.push_back("MacroOne2_Example"); }
AWT_UNSTABLE_TEST(MacroThree) { AWT_UNUSED_CONTEXT; macro_log.push_back("MacroThree_Test_Unstable"); }
AWT_UNSTABLE_BENCHMARK(MacroFour) { AWT_UNUSED_CONTEXT; macro_log.push_back("MacroFour_Benchmark_Unstable"); }
AWT_UNSTABLE_EXAMPLE(MacroFive) { AWT_UNUSED_CONTEXT; macro_log.push_back("MacroFive_Example_Unstable"); }
[[maybe_unused]] AWT_DISABLED_TEST(MacroSix) { AWT_UNUSED_CONTEXT; macro_log.push_back("disabled"); }

namespace
{
    // Everything written to the console while alive; other threads may write too.
    struct Capture : std::streambuf
    {
        std::string text; mutable std::mutex m; std::streambuf* old;
        Capture() : old(awl::cout().rdbuf(this)) {}
        ~Capture() { awl::cout().rdbuf(old); awl::cout().clear(); }
        int overflow(int ch) override { if (ch != EOF) { std::lock_guard<std::mutex> l(m); text += static_cast<char>(ch); } return ch == EOF ? 0 : ch; }
        std::streamsize xsputn(const char* s, std::streamsize n) override { std::lock_guard<std::mutex> l(m); text.append(s, static_cast<size_t>(n)); return n; }
        std::string get() const { std::lock_guard<std::mutex> l(m); return text; }
    };
    bool has(const std::string& t, const std::string& what) { return t.find(what) != std::string::npos; }
    size_t times(const std::string& t, const std::string& what) { size_t n = 0; for (size_t p = t.find(what); p != std::string::npos; p = t.find(what, p + what.size())) ++n; return n; }
    std::vector<std::string> lines(const std::string& t) { std::vector<std::string> r; std::istringstream in(t); std::string s; while (std::getline(in, s)) r.push_back(s); return r; }

    struct Plan
    {
        std::string name; uint64_t fail_at = 0; // 0: passes always, k: throws in its k-th run
        int how = 0; std::string said, message; bool reads = false;
        uint64_t runs = 0;
        // what it has read
        size_t amount = 0; std::string label; std::set<std::string> words; bool flag = false; std::vector<int> numbers; int sign = 0;
    };
    Plan plan[20]; std::vector<int> log_; bool stop_seen = false;
    void act(int k, const at::TestContext& context)
    {
        Plan& p = plan[k]; ++p.runs; log_.push_back(k);
        if (context.stopToken.stop_requested()) stop_seen = true;
        context.out << "<" << p.said << p.runs << ">";
        if (p.reads)
        {
            AWT_ATTRIBUTE(size_t, amount, 17); AWT_ATTRIBUTE(awl::String, label, _T("dflt")); AWT_ATTRIBUTE(std::set<awl::String>, words, {}); AWT_FLAG(verbose_flag); AWT_ATTRIBUTE(std::vector<int>, numbers, (std::vector<int>{ 3, 1 })); AWT_ATTRIBUTE(int, sign, -5);
            p.amount = amount; p.label = label; p.words = words; p.flag = verbose_flag; p.numbers = numbers; p.sign = sign;
        }
        if (p.fail_at != 0 && p.runs == p.fail_at)
        {
            if (p.how == 0) throw at::TestException(p.message);
            if (p.how == 1) at::Assert::Fail(p.message);
            if (p.how == 2) at::Assert::IsTrue(false, p.message.c_str());
            at::Assert::AreEqual(1, 2, p.message.c_str());
        }
        context.out << "{" << p.said << p.runs << "}";
    }
    template <int K> void fn(const at::TestContext& context) { act(K, context); }
    template <int... K> constexpr std::array<at::TestFunc, sizeof...(K)> table_(std::integer_sequence<int, K...>) { return { &fn<K>... }; }
    const auto table = table_(std::make_integer_sequence<int, 20>{});

    struct Tests
    {
        std::list<std::string> names; std::list<at::TestLink> links;
        Tests() { at::Shutdown(); }
        void add(int k, const std::string& name) { plan[k] = Plan(); plan[k].name = name; names.push_back(name); links.emplace_back(names.back().c_str(), table[static_cast<size_t>(k)]); }
        ~Tests() { at::Shutdown(); }
    };
    // argv with exact-size buffers, so that a read past a value is caught.
    struct Args
    {
        std::vector<std::unique_ptr<char[]>> own; std::vector<char*> v; std::string shown;
        void add(const std::string& s) { own.emplace_back(new char[s.size() + 1]); memcpy(own.back().get(), s.c_str(), s.size() + 1); v.push_back(own.back().get()); shown += " '" + s + "'"; }
        Args() { add("prog"); shown.clear(); }
        int argc() const { return static_cast<int>(v.size()); }
        char** argv() { return v.data(); }
    };
    std::string join(const std::vector<std::string>& v, vh::Rng& r) { std::string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += r.chance(1, 4) ? "  " : " "; s += v[i]; } return s; }

    struct Filter { std::string text; std::function<bool(const std::string&)> ok; };
    bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
    bool starts(const std::string& s, const std::string& e) { return s.compare(0, e.size(), e) == 0; }
    Filter make_filter(vh::Rng& r, const std::vector<std::string>& names)
    {
        const std::string some = names.empty() ? "Zero_Test" : r.pick(names); const std::string other = names.empty() ? "One_Test" : r.pick(names);
        const std::string part = some.substr(r.below(some.size()), 1 + r.below(3)), head = some.substr(0, 1 + r.below(some.size()));
        switch (r.below(9))
        {
        case 0: return { some, [=](const std::string& s) { return s == some; } };
        case 1: return { head + ".*", [=](const std::string& s) { return starts(s, head); } };
        case 2: return { ".*" + part + ".*", [=](const std::string& s) { return has(s, part); } };
        case 3: return { "(" + some + "|" + other + ")", [=](const std::string& s) { return s == some || s == other; } };
        case 4: return { some + "|" + head, [=](const std::string& s) { return s == some || s == head; } };
        case 5: return { ".*_Test", [](const std::string& s) { return ends(s, "_Test"); } };
        case 6: return { "[A-M].*", [](const std::string& s) { return s[0] >= 'A' && s[0] <= 'M'; } };
        case 7: return { head, [=](const std::string& s) { return s == head; } };
        default: return { ".+_(Benchmark|Example)", [](const std::string& s) { return (ends(s, "_Benchmark") && s.size() > 10) || (ends(s, "_Example") && s.size() > 8); } };
        }
    }
    std::string show(const std::vector<int>& v) { std::string s; for (int k : v) s += plan[k].name + " "; return s; }
}

VH_CASE(runs, 8)
{
    c.iterate(c.n(4000, 120000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Tests tests; std::vector<std::string> names;
        static const char* stems[] = { "Alpha", "Alpha2", "AlphaBeta", "Beta", "beta", "B", "Gamma_1", "Gamma_12", "x_1", "X_10", "Omega", "Omeg", "Zeta", "Z", "aA", "Aa", "M_m", "Long_Name_With_Parts" };
        static const char* ends_[] = { "_Test", "_Test", "_Test", "_Test", "_Benchmark", "_Example", "_Test_Unstable" };
        const size_t n = r.chance(1, 12) ? 0 : 1 + r.below(14); std::set<std::string> used;
        while (names.size() < n) { std::string s = std::string(stems[r.below(18)]) + ends_[r.below(7)]; if (used.insert(s).second) names.push_back(s); }
        for (size_t i = 0; i < n; ++i) tests.add(static_cast<int>(i), names[i]);
        const bool failing = r.chance(2, 5); std::map<std::string, int> by; uint64_t loop = 0; const bool looped = r.chance(1, 4); if (looped) loop = r.below(5);
        const uint64_t rounds = loop ? loop : 1;
        for (size_t i = 0; i < n; ++i)
        {
            Plan& p = plan[i]; by[p.name] = static_cast<int>(i); p.said = fmt("says%zu_", i); p.message = fmt("broken-%zu-because", i); p.reads = r.flip(); p.how = static_cast<int>(r.below(4));
            if (failing && r.chance(1, 4)) p.fail_at = 1 + r.below(rounds + (r.chance(1, 6) ? 1 : 0));
        }
        // the command line
        std::vector<std::pair<std::string, std::vector<std::string>>> opts;
        const int mode = static_cast<int>(r.below(5)); // 0: nothing, 1: run, 2: filter, 3: list, 4: run and filter
        Filter f{ "", [](const std::string& s) { return ends(s, "_Test"); } }; std::vector<std::string> run; bool unknown = false, bad_regex = false, all_listed = true; std::string unknown_name;
        if (mode == 1 || mode == 4)
        {
            const size_t m = r.below(5); for (size_t i = 0; i < m && n; ++i) run.push_back(r.pick(names));
            if (r.chance(1, 6)) { unknown_name = r.pick({ "Nothing_Test", "alpha_Test", "Alpha", "AlphaBeta_Tes", "zzz_Test", "0_Test" }); if (!used.count(unknown_name)) { run.push_back(unknown_name); unknown = true; } }
            r.shuffle(run); opts.push_back({ "run", { join(run, r) } });
        }
        if (mode == 2 || mode == 4 || (mode == 3 && r.flip()))
        {
            f = make_filter(r, names); all_listed = false;
            if (r.chance(1, 12)) { f = { "", [](const std::string&) { return true; } }; }
            else if (r.chance(1, 12)) { f.text = r.pick({ "(", "[a", "a{2", "*x", "(?<a)" }); bad_regex = true; f.ok = [](const std::string&) { return false; }; }
            opts.push_back({ "filter", { f.text } });
        }
        if (mode == 3) { opts.push_back({ "list", {} }); if (all_listed) f.ok = [](const std::string&) { return true; }; }
        int out = 0; if (r.flip()) { out = static_cast<int>(r.below(4)); opts.push_back({ "output", { out == 0 ? "failed" : out == 1 ? "all" : out == 2 ? "null" : r.pick({ "none", "fail", "", "ALL", "failed " }) } }); }
        if (looped) opts.push_back({ "loop", { std::to_string(loop) } });
        if (r.chance(1, 10)) opts.push_back({ "timeout", { "600000" } });
        size_t amount = 17; if (r.flip()) { amount = r.flip() ? r.below(1000) : r.next(); opts.push_back({ "amount", { std::to_string(amount) } }); }
        std::string label = "dflt"; if (r.flip()) { label = r.pick({ "x", "two words", "--1", "-", "", "a=b", "-7" }); opts.push_back({ "label", { label } }); }
        std::set<std::string> words; if (r.flip()) { std::vector<std::string> w; for (size_t i = r.below(4); i--;) w.push_back(fmt("w%d", static_cast<int>(r.below(6)))); words = std::set<std::string>(w.begin(), w.end()); opts.push_back({ "words", { join(w, r) } }); }
        bool flag = false; if (r.flip()) { flag = true; opts.push_back({ "verbose_flag", {} }); if (r.chance(1, 4)) opts.back().second = { r.pick({ "false", "0", "yes" }) }; }
        std::vector<int> numbers{ 3, 1 }; if (r.flip()) { numbers.clear(); std::vector<std::string> w; for (size_t i = r.below(4); i--;) { numbers.push_back(static_cast<int>(r.range(-50, 50))); w.push_back(std::to_string(numbers.back())); } opts.push_back({ "numbers", { join(w, r) } }); }
        int sign = -5; if (r.flip()) { sign = static_cast<int>(r.range(-1000, 1000)); opts.push_back({ "sign", { std::to_string(sign) } }); }
        std::vector<std::string> bogus; if (r.chance(1, 3)) for (size_t i = 1 + r.below(2); i--;) { bogus.push_back(fmt("bogus_%zu", i)); opts.push_back({ bogus.back(), {} }); if (r.flip()) opts.back().second = { "val" }; }
        r.shuffle(opts);
        Args args; for (auto& o : opts) { args.add("--" + o.first); for (auto& v : o.second) args.add(v); }
        c.note("names " + join(names, r) + " args" + args.shown); c.eval();
        // the model
        const bool by_name = !run.empty();
        std::vector<std::string> sel; bool reports = false; std::string expect_message;
        if (by_name) { std::set<std::string> s(run.begin(), run.end()); sel.assign(s.begin(), s.end()); } else { for (auto& e : by) if (f.ok(e.first)) sel.push_back(e.first); }
        std::vector<int> want; std::vector<std::string> said; bool passed = true; std::string fail_said; uint64_t ok_rounds = 0; int failed_test = -1;
        if (mode != 3)
        {
            if (!by_name && bad_regex && n) { passed = false; expect_message = f.text; }
            else for (auto& s : sel)
            {
                if (!by.count(s)) { passed = false; expect_message = s; break; }
                if (out == 3) { passed = false; expect_message = "output"; break; }
                const int k = by[s]; bool stopped = false;
                for (uint64_t i = 1; i <= rounds; ++i) { want.push_back(k); if (plan[k].fail_at == i) { passed = false; expect_message = plan[k].message; failed_test = k; stopped = true; break; } ++ok_rounds; }
                if (stopped) break;
            }
        }
        else if (bad_regex && n) reports = true;
        std::vector<uint64_t> fails(n); for (size_t i = 0; i < n; ++i) fails[i] = plan[i].fail_at;
        log_.clear(); stop_seen = false; int result = -1; std::string text;
        { Capture cap; try { result = at::Run(args.argc(), args.argv()); } catch (const at::TestException& e) { text = cap.get(); c.fail("escaped", "an exception of a run escaped: " + std::string(e.What()) + "; args" + args.shown); } text = cap.get(); }
        const std::string where = "args" + args.shown + "; output " + text.substr(0, 900);
        if (mode == 3)
        {
            VH_CHECK(c, log_.empty(), "list_runs", "listing runs tests: %s", where.c_str());
            if (reports) { VH_CHECK(c, result == 2 && has(text, f.text), "list_regex", "a wrong filter is not reported: result %d, %s", result, where.c_str()); c.count("wrong filters"); }
            else
            {
                std::vector<std::string> got; for (auto& l : lines(text)) if (by.count(l)) got.push_back(l);
                VH_CHECK(c, got == sel, "list_names", "listed %zu names, expected %zu: %s", got.size(), sel.size(), where.c_str());
                VH_CHECK(c, has(text, std::to_string(sel.size())), "list_count", "the count %zu is not printed: %s", sel.size(), where.c_str()); c.count("listings");
            }
        }
        else
        {
            VH_CHECK(c, log_ == want, "order", "ran [%s], expected [%s]: %s", show(log_).c_str(), show(want).c_str(), where.c_str());
            VH_CHECK(c, result == (passed ? 1 : 0), "result", "result %d, expected %s: %s", result, passed ? "success" : "failure", where.c_str());
            VH_CHECK(c, has(text, "The tests passed") == passed && has(text, "The tests failed") == !passed, "verdict", "the verdict printed is not %s: %s", passed ? "success" : "failure", where.c_str());
            if (!passed) { VH_CHECK(c, has(text, expect_message), "message", "the output does not tell '%s': %s", expect_message.c_str(), where.c_str()); c.count("failing runs"); } else c.count("passing runs");
            VH_CHECK(c, times(text, "\tPassed within") == ok_rounds, "rounds", "%zu passes reported, %llu happened: %s", times(text, "\tPassed within"), static_cast<unsigned long long>(ok_rounds), where.c_str());
            for (auto& s : std::set<int>(want.begin(), want.end())) VH_CHECK(c, has(text, plan[s].name), "named", "the test %s is not named: %s", plan[s].name.c_str(), where.c_str());
            // the tests' own output
            std::map<int, uint64_t> round; std::string begin_all, expect_own, got_own;
            for (size_t i = 0; i < want.size(); ++i)
            {
                const int k = want[i]; const std::string& s = plan[k].said; const uint64_t j = ++round[k]; const bool bad = i + 1 == want.size() && failed_test == k;
                const std::string one = "<" + s + std::to_string(j) + ">" + (bad ? std::string() : "{" + s + std::to_string(j) + "}");
                if (out == 1 || (out == 0 && bad)) expect_own += one;
            }
            for (size_t i = 0; i < text.size(); ++i) if ((text[i] == '<' || text[i] == '{') && text.compare(i + 1, 4, "says") == 0) { const size_t e = text.find(text[i] == '<' ? '>' : '}', i); if (e == std::string::npos) break; got_own += text.substr(i, e + 1 - i); i = e; }
            VH_CHECK(c, got_own == expect_own, "own_output", "the tests' own output shown is '%s', expected '%s': %s", got_own.c_str(), expect_own.c_str(), where.c_str());
            for (int k : std::set<int>(want.begin(), want.end())) if (plan[k].reads)
            {
                const Plan& p = plan[k];
                VH_CHECK(c, p.amount == amount && p.label == label && p.words == words && p.flag == flag && p.numbers == numbers && p.sign == sign, "attributes", "a test has read amount %zu (given %zu), label '%s' ('%s'), %zu words (%zu), flag %d (%d), %zu numbers (%zu), sign %d (%d): %s", p.amount, amount, p.label.c_str(), label.c_str(), p.words.size(), words.size(), p.flag, flag, p.numbers.size(), numbers.size(), p.sign, sign, where.c_str());
                c.count("attributes read", 6);
            }
            VH_CHECK(c, !stop_seen, "stopped", "a test is asked to stop without a reason: %s", where.c_str());
            c.count("tests run", want.size());
            bool read_any = false; for (int k : want) read_any |= plan[k].reads;
            for (auto& o : opts)
            {
                const std::string q = "'" + o.first + "'"; const bool is_bogus = starts(o.first, "bogus"); const bool is_test = o.first == "amount" || o.first == "label" || o.first == "words" || o.first == "numbers" || o.first == "sign" || o.first == "verbose_flag";
                bool rep = false; for (auto& l : lines(text)) rep |= has(l, "nused") && has(l, q);
                if (is_bogus || (is_test && !read_any)) { VH_CHECK(c, rep, "unused", "the option %s, used by nothing, is not reported: %s", o.first.c_str(), where.c_str()); c.count("unused options"); }
                else if (is_test || (o.first == "run") || (o.first == "filter" && !by_name) || (!want.empty() && (o.first == "output" || o.first == "loop" || o.first == "timeout"))) VH_CHECK(c, !rep, "used", "the option %s, used, is reported as unused: %s", o.first.c_str(), where.c_str());
            }
        }
        uint64_t h = vh::hash_str(args.shown); for (auto& s : names) h = vh::hash_str(s, h); for (uint64_t x : fails) h = vh::mix(h ^ x); c.distinct(h);
        if (c.want_sample()) c.sample(fmt("%zu tests,", n) + args.shown + fmt(": %zu runs, %s", want.size(), passed ? "passed" : expect_message.c_str()));
    });
}

// Two tests of one name, an empty chain, tests that come from the macros.
VH_CASE(registry, 2)
{
    c.iterate(c.n(400, 8000), [&](uint64_t i)
    {
        vh::Rng& r = c.rng; c.eval();
        if (i < 2)
        {
            // the first iteration of each shard sees the tests the macros registered
            std::multiset<std::string> got; for (auto* l : at::GetTestChain()) got.insert(l->GetName());
            const std::multiset<std::string> want{ "MacroOne_Test", "MacroTwo_Test", "MacroOne1_Benchmark", "MacroOne2_Example", "MacroThree_Test_Unstable", "MacroFour_Benchmark_Unstable", "MacroFive_Example_Unstable" };
            VH_CHECK(c, got == want, "macros", "%zu tests registered by the macros, expected %zu", got.size(), want.size());
            Args a; std::vector<std::string> expect{ "MacroOne_Test", "MacroTwo_Test" };
            if (i == 1) { a.add("--filter"); a.add("Macro[TF].*"); expect = { "MacroFive_Example_Unstable", "MacroFour_Benchmark_Unstable", "MacroThree_Test_Unstable", "MacroTwo_Test" }; }
            macro_log.clear(); int result; std::string text; { Capture cap; result = i ? at::Run(a.argc(), a.argv()) : at::Run(); text = cap.get(); }
            VH_CHECK(c, result == 1 && macro_log == expect, "macro_runs", "%zu tests have run, expected %zu, result %d: %s", macro_log.size(), expect.size(), result, text.c_str());
            VH_CHECK(c, times(text, "\tPassed within") == expect.size(), "macro_rounds", "%s", text.c_str()); c.count("macro tests", expect.size()); return;
        }
        Tests t; const int n = static_cast<int>(1 + r.below(8)); for (int k = 0; k < n; ++k) { t.add(k, fmt("T%d_Test", k)); plan[k].said = "s"; }
        const int same = static_cast<int>(r.below(static_cast<uint64_t>(n))); t.add(n, fmt("T%d_Test", same));
        Args a; const uint64_t kind = r.below(4); if (kind == 1) { a.add("--run"); a.add(fmt("T%d_Test", static_cast<int>(r.below(static_cast<uint64_t>(n))))); } if (kind == 2) a.add("--list"); if (kind == 3) { a.add("--filter"); a.add("nothing"); }
        log_.clear(); int result = -1; std::string text; { Capture cap; try { result = at::Run(a.argc(), a.argv()); } catch (const at::TestException& e) { c.fail("duplicate_escaped", e.What()); } text = cap.get(); }
        VH_CHECK(c, result != 1 && (kind == 2 || result == 2) && has(text, fmt("T%d_Test", same)) && log_.empty(), "duplicate", "two tests of one name: result %d, %zu tests run, output %s", result, log_.size(), text.c_str());
        c.count("duplicate names"); c.distinct(vh::mix(static_cast<uint64_t>(n * 100 + same) * 4 + kind)); if (c.want_sample()) c.sample(fmt("%d tests, the name of #%d twice: %s", n, same, text.c_str()));
    });
}

// A command line as the provider sees it.
namespace
{
    bool is_option(const std::string& s)
    {
        if (s.size() < 4 || s[0] != '-' || s[1] != '-' || !isalpha(static_cast<unsigned char>(s[2]))) return false;
        for (size_t i = 3; i < s.size(); ++i) if (s[i] != '_' && !isalnum(static_cast<unsigned char>(s[i]))) return false;
        return true;
    }
    std::string word(vh::Rng& r)
    {
        static const std::string al = "abcXYZ019_";
        switch (r.below(12))
        {
        case 0: return ""; case 1: return "--"; case 2: return "--a"; case 3: return "---ab"; case 4: return "-" + fmt("%d", static_cast<int>(r.below(99)));
        case 5: return r.pick({ "--1a", "--ab-c", "--ab=c", "--ab c", "-ab", " --ab", "--ab ", "--_a", "ab--cd", "--a\nb", "a\nb" });
        case 6: return std::string(1 + r.below(300), 'v');
        default: { std::string s = "--"; s += r.pick({ 'a', 'b', 'Z' }); for (size_t n = 1 + r.below(2 + r.below(3)); n--;) s += al[r.below(al.size())]; if (r.chance(1, 5)) s = s.substr(2); return s; }
        }
    }
}
VH_CASE(options, 8)
{
    c.iterate(c.n(40000, 1000000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Args a; std::vector<std::string> given; const size_t n = r.below(9);
        for (size_t i = 0; i < n; ++i) { given.push_back(word(r)); if (r.chance(1, 3) && !given.empty() && !is_option(given.back())) given.back() = fmt("--op%zu", i); a.add(given.back()); }
        // the model
        std::map<std::string, std::string> want; std::string error; std::string current; bool open = false;
        for (auto& s : given)
        {
            if (is_option(s)) { current = s.substr(2); if (want.count(current)) { error = current; break; } want[current]; open = true; }
            else if (open) { want[current] = s; open = false; }
            else { error = s; if (error.empty()) error = "--"; break; }
        }
        c.eval(); c.note("args" + a.shown); std::string text; bool thrown = false; std::string said; std::set<std::string> asked;
        const int argc = n == 0 && r.flip() ? 0 : a.argc();
        {
            Capture cap;
            try
            {
                at::CommandLineProvider p(argc, a.argv());
                for (size_t k = r.below(12); k--;)
                {
                    std::string name = want.empty() || r.chance(1, 4) ? word(r) : std::next(want.begin(), static_cast<long>(r.below(want.size())))->first; if (r.chance(1, 8)) name = "--" + name;
                    std::string v = "before"; const bool found = p.TryFind(name, v); auto e = want.find(name); if (found) asked.insert(name);
                    if (error.empty()) VH_CHECK(c, found == (e != want.end()) && (!found || v == e->second), "find", "'%s' is %s with the value '%s', args%s", name.c_str(), found ? "found" : "not found", v.c_str(), a.shown.c_str());
                    c.count("lookups");
                }
            }
            catch (const at::TestException& e) { thrown = true; said = e.What(); }
            text = cap.get();
        }
        VH_CHECK(c, thrown == !error.empty(), "accepted", "the command line%s is %s", a.shown.c_str(), thrown ? ("refused: " + said).c_str() : "accepted");
        if (thrown) { VH_CHECK(c, has(said, error), "which", "the error '%s' does not name '%s', args%s", said.c_str(), error.c_str(), a.shown.c_str()); c.count("refused"); }
        else
        {
            for (auto& e : want)
            {
                bool rep = false; for (auto& l : lines(text)) rep |= has(l, "'" + e.first + "'");
                VH_CHECK(c, rep == !asked.count(e.first), "unused", "the option '%s' is %s, args%s; output %s", e.first.c_str(), rep ? "reported though asked for" : "not reported", a.shown.c_str(), text.c_str());
            }
            VH_CHECK(c, lines(text).size() == want.size() - asked.size(), "lines", "%zu lines for %zu unused options: %s", lines(text).size(), want.size() - asked.size(), text.c_str()); c.count("accepted");
        }
        c.distinct(vh::hash_str(a.shown)); if (c.want_sample() && n > 3) c.sample("args" + a.shown + (thrown ? ": " + said : fmt(": %zu options", want.size())));
    });
}

// Attributes of every supported type.
namespace
{
    struct Given : at::AttributeProvider
    {
        bool present = false; std::string name, text; mutable int asked = 0;
        bool TryFind(const awl::String& n, awl::String& v) const override { ++asked; if (present && n == name) { v = text; return true; } return false; }
    };
    template <class T> T read_attr(at::AttributeProvider& p, const T& d) { awl::ostringstream out; at::TestContext context{ out, {}, p }; AWT_ATTRIBUTE(T, value, d); return value; }
    template <class T> T any_number(vh::Rng& r)
    {
        using L = std::numeric_limits<T>;
        if constexpr (std::is_floating_point_v<T>)
        {
            switch (r.below(7)) { case 0: return L::max(); case 1: return L::lowest(); case 2: return L::min(); case 3: return 0; case 4: return static_cast<T>(r.range(-1000000, 1000000)) / 1024; case 5: return L::epsilon() * static_cast<T>(r.next()); default: return static_cast<T>(r.next() >> 11) * static_cast<T>(1e-9); }
        }
        else switch (r.below(6)) { case 0: return L::max(); case 1: return L::min(); case 2: return static_cast<T>(L::max() - static_cast<T>(r.below(3))); case 3: return static_cast<T>(r.below(100)); case 4: return static_cast<T>(L::max() / 2 + static_cast<T>(r.below(3))); default: return static_cast<T>(r.next()); }
    }
    template <class T> std::string text_of(T v) { if constexpr (std::is_floating_point_v<T>) { char b[80]; snprintf(b, sizeof b, "%.*Lg", std::numeric_limits<T>::max_digits10, static_cast<long double>(v)); return b; } else return std::to_string(v); }
    template <class T> void number(Case& c, const char* type)
    {
        vh::Rng& r = c.rng; Given g; g.name = "value"; const T d = any_number<T>(r), v = any_number<T>(r); c.eval(); c.note(type);
        auto same = [](T x, T y) { return x == y; };
        VH_CHECK(c, same(read_attr<T>(g, d), d), "default", "%s: the default %s is read as %s", type, text_of(d).c_str(), text_of(read_attr<T>(g, d)).c_str());
        g.present = true; g.text = text_of(v); if (r.chance(1, 6)) g.text = " " + g.text; if (r.chance(1, 8) && v > 0) g.text = "+" + text_of(v);
        const T got = read_attr<T>(g, d); VH_CHECK(c, same(got, v), "given", "%s: '%s' is read as %s (default %s)", type, g.text.c_str(), text_of(got).c_str(), text_of(d).c_str());
        g.text = r.pick({ "", "abc", "-", "+", " ", "x1", ".", "--5", "value" }); VH_CHECK(c, same(read_attr<T>(g, d), d), "malformed", "%s: '%s' is read as %s, not the default %s", type, g.text.c_str(), text_of(read_attr<T>(g, d)).c_str(), text_of(d).c_str());
        if constexpr (!std::is_floating_point_v<T>) { g.text = text_of(std::numeric_limits<T>::max()) + std::string(1 + r.below(3), static_cast<char>('0' + r.below(10))); VH_CHECK(c, same(read_attr<T>(g, d), d), "too_big", "%s: '%s' is read as %s, not the default %s", type, g.text.c_str(), text_of(read_attr<T>(g, d)).c_str(), text_of(d).c_str());
            // just over the limit
            unsigned __int128 m = static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + 1 + r.below(3); std::string s; while (m) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(m % 10))); m /= 10; } g.text = s;
            VH_CHECK(c, same(read_attr<T>(g, d), d), "over_limit", "%s: '%s' is read as %s, not the default %s", type, s.c_str(), text_of(read_attr<T>(g, d)).c_str(), text_of(d).c_str()); }
        else { g.text = std::is_same_v<T, long double> ? "1e5000" : std::is_same_v<T, double> ? "-1e400" : "1e39"; VH_CHECK(c, same(read_attr<T>(g, d), d), "too_big", "%s: '%s' is read as %s", type, g.text.c_str(), text_of(read_attr<T>(g, d)).c_str()); }
        c.count("numbers", 4); c.distinct(vh::hash_str(text_of(v), vh::hash_str(type)));
    }
    template <class E> E element(vh::Rng& r) { if constexpr (std::is_same_v<E, std::string>) { std::string s; for (size_t n = 1 + r.below(12); n--;) s += static_cast<char>('!' + r.below(94)); return s; } else if constexpr (std::is_floating_point_v<E>) return static_cast<E>(r.range(-100000, 100000)) / 64; else return static_cast<E>(r.range(0, 30000)) * (std::is_signed_v<E> && r.flip() ? -1 : 1); }
    template <class E> std::string element_text(const E& e) { if constexpr (std::is_same_v<E, std::string>) return e; else return text_of(e); }
    template <class T> void collection(Case& c, const char* type)
    {
        using E = typename T::value_type; vh::Rng& r = c.rng; Given g; g.name = "value"; c.eval(); c.note(type);
        auto make = [&](std::string* text) { std::vector<E> v; for (size_t n = r.below(6); n--;) v.push_back(element<E>(r)); if (text) for (size_t i = 0; i < v.size(); ++i) { if (i) *text += r.pick({ " ", "  ", "\t", "\n" }); *text += element_text(v[i]); } return T(v.begin(), v.end()); };
        const T d = make(nullptr); VH_CHECK(c, read_attr<T>(g, d) == d, "default_collection", "%s: the default of %zu elements is read otherwise", type, d.size());
        const T v = make(&g.text); g.present = true; const T got = read_attr<T>(g, d); VH_CHECK(c, got == v, "collection", "%s: '%s' is read as %zu elements", type, g.text.c_str(), got.size()); c.count("collections");
        const std::string again = at::Formatter<T>::ToString(v); g.text = again; if constexpr (!std::is_floating_point_v<E>) VH_CHECK(c, read_attr<T>(g, d) == v, "collection_round", "%s: '%s' is read otherwise than printed", type, again.c_str());
        c.distinct(vh::hash_str(g.text, vh::hash_str(type))); if (c.want_sample()) c.sample(std::string(type) + " from '" + g.text + "'");
    }
}
VH_CASE(attributes, 4)
{
    c.iterate(c.n(6000, 200000), [&](uint64_t)
    {
        vh::Rng& r = c.rng;
        number<int>(c, "int"); number<unsigned>(c, "unsigned"); number<long>(c, "long"); number<unsigned long>(c, "unsigned long"); number<long long>(c, "long long"); number<unsigned long long>(c, "unsigned long long");
        number<float>(c, "float"); number<double>(c, "double"); number<long double>(c, "long double");
        collection<std::vector<int>>(c, "vector<int>"); collection<std::set<int>>(c, "set<int>"); collection<std::vector<std::string>>(c, "vector<string>"); collection<std::set<std::string>>(c, "set<string>"); collection<std::vector<double>>(c, "vector<double>"); collection<std::vector<uint64_t>>(c, "vector<uint64_t>"); collection<std::set<unsigned>>(c, "set<unsigned>");
        // text and flags
        Given g; g.name = "value"; const std::string d = element<std::string>(r); VH_CHECK(c, read_attr<std::string>(g, d) == d && !read_attr<bool>(g, false) && read_attr<bool>(g, true), "text_default", "a default text or flag is read otherwise");
        g.present = true; g.text = r.chance(1, 4) ? std::string() : element<std::string>(r) + " " + element<std::string>(r) + (r.flip() ? " " : ""); VH_CHECK(c, read_attr<std::string>(g, d) == g.text, "text", "'%s' is read as '%s'", g.text.c_str(), read_attr<std::string>(g, d).c_str());
        VH_CHECK(c, read_attr<bool>(g, false), "flag", "a flag given with '%s' is not set", g.text.c_str()); c.count("texts", 2); c.eval();
    });
}

// Failing and holding assertions.
namespace
{
    template <class F> bool fails(F f, std::string& said) { try { f(); } catch (const at::TestException& e) { said = e.What(); return true; } said.clear(); return false; }
    struct MyError : std::runtime_error { MyError() : std::runtime_error("mine") {} }; struct Derived : MyError {};
}
VH_CASE(asserts, 1)
{
    c.iterate(c.n(3000, 30000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; std::string s; const int x = static_cast<int>(r.below(4)), y = static_cast<int>(r.below(4)); c.eval();
        VH_CHECK(c, fails([&] { AWT_ASSERT(x == y); }, s) == (x != y), "assert", "AWT_ASSERT(x == y) of %d and %d: %s", x, y, s.c_str());
        if (x != y) VH_CHECK(c, has(s, "x == y") && has(s, "c35_testing.cpp"), "assert_text", "the message '%s' names neither the condition nor the place", s.c_str());
        VH_CHECK(c, fails([&] { AWT_ASSERT_FALSE(x < y); }, s) == (x < y), "assert_false", "AWT_ASSERT_FALSE(x < y) of %d and %d: %s", x, y, s.c_str());
        VH_CHECK(c, fails([&] { AWT_ASSERTM(x <= y, "remark"); }, s) == !(x <= y) && (s.empty() || has(s, "remark")), "assertm", "AWT_ASSERTM of %d and %d: %s", x, y, s.c_str());
        VH_CHECK(c, fails([&] { AWT_ASSERTM_TRUE(x <= y, "remark"); }, s) == !(x <= y) && (s.empty() || has(s, "remark")), "assertm", "AWT_ASSERTM_TRUE of %d and %d: %s", x, y, s.c_str());
        VH_CHECK(c, fails([&] { AWT_ASSERTM_FALSE(x <= y, "remark"); }, s) == (x <= y) && (s.empty() || has(s, "remark")), "assertm", "AWT_ASSERTM_FALSE of %d and %d: %s", x, y, s.c_str());
        VH_CHECK(c, fails([&] { AWT_ASSERT_EQUAL(x, y); }, s) == (x != y) && (x == y || (has(s, std::to_string(x)) && has(s, std::to_string(y)))), "assert_equal", "AWT_ASSERT_EQUAL of %d and %d: %s", x, y, s.c_str());
        VH_CHECK(c, fails([&] { AWT_ASSERTM_EQUAL(std::string("ab"), std::string(static_cast<size_t>(x), 'a'), "remark"); }, s) && has(s, "remark"), "assertm_equal", "%s", s.c_str());
        VH_CHECK(c, fails([&] { AWT_FAIL; }, s) && fails([&] { AWT_FAILM(remark here); }, s) && has(s, "remark here"), "fail", "AWT_FAIL does not fail: %s", s.c_str());
        const int what = static_cast<int>(r.below(5));
        auto thrower = [&] { if (what == 1) throw MyError(); if (what == 2) throw Derived(); if (what == 3) throw at::TestException("test failure"); if (what == 4) throw std::logic_error("other"); };
        bool other = false; auto expects = [&](auto* tag) { using E = std::remove_pointer_t<decltype(tag)>; other = false; try { return fails([&] { at::Assert::Throws<E>(thrower); }, s); } catch (const std::exception&) { other = true; return false; } };
        bool f = expects(static_cast<MyError*>(nullptr)); VH_CHECK(c, f == (what == 0 || what == 3) && other == (what == 4), "throws", "Throws<MyError> with action %d: failed %d, escaped %d", what, f, other);
        f = expects(static_cast<std::logic_error*>(nullptr)); VH_CHECK(c, f == (what == 0 || what == 3) && other == (what == 1 || what == 2), "throws", "Throws<logic_error> with action %d: failed %d, escaped %d", what, f, other);
        f = expects(static_cast<std::exception*>(nullptr)); VH_CHECK(c, f == (what == 0) && !other, "throws_base", "Throws<std::exception> with action %d (0: nothing is thrown): failed %d, escaped %d", what, f, other);
        f = expects(static_cast<awl::Exception*>(nullptr)); VH_CHECK(c, f == (what == 0) && other == (what == 1 || what == 2 || what == 4), "throws_base", "Throws<awl::Exception> with action %d: failed %d, escaped %d", what, f, other);
        c.count("assertions", 13); c.distinct(static_cast<uint64_t>(x * 20 + y * 5 + what));
    });
    c.sample("all pairs of 0..3, every macro");
}

// Tests that take too long are asked to stop, others are not.
namespace
{
    std::atomic<int> asked_{ 0 }; std::atomic<bool> waited_out{ false }, never{ false }; double waited = 0; int wait_ms = 0; bool slow_fails = false;
    void slow(const at::TestContext& context)
    {
        const double t0 = vh::now_s(); context.out << "<slow>";
        while (!context.stopToken.stop_requested()) { if (wait_ms >= 0 && (vh::now_s() - t0) * 1000 >= wait_ms) { waited_out = true; break; } if (vh::now_s() - t0 > 20) { never = true; break; } vh::nap_us(300); }
        waited = (vh::now_s() - t0) * 1000; if (context.stopToken.stop_requested()) ++asked_;
        if (slow_fails) at::Assert::Fail("slow failure");
    }
}
VH_CASE(timeouts, 8)
{
    c.iterate(c.n(240, 2400), [&](uint64_t)
    {
        if (never) return; // one wait in vain is enough
        vh::Rng& r = c.rng; const int kind = static_cast<int>(r.below(4)); const int t = static_cast<int>(r.below(25)); c.eval(); c.note(fmt("kind %d timeout %d", kind, t)); slow_fails = r.chance(1, 3);
        if (kind < 3)
        {
            at::Shutdown(); at::TestLink link("Slow_Test", &slow); Args a; int loop = 1; asked_ = 0; waited_out = false;
            if (kind == 0) { a.add("--timeout"); a.add(std::to_string(t)); wait_ms = -1; }                                   // waits until asked to stop
            else if (kind == 1) { if (r.flip()) { a.add("--timeout"); a.add(r.flip() ? "600000" : "-1"); } wait_ms = t; }         // ends long before
            else { loop = static_cast<int>(2 + r.below(3)); a.add("--loop"); a.add(std::to_string(loop)); a.add("--timeout"); a.add(std::to_string(t)); wait_ms = -1; }
            std::string text; int result; { Capture cap; result = at::Run(a.argc(), a.argv()); text = cap.get(); } at::Shutdown();
            VH_CHECK(c, !never, "never", "a test is not asked to stop within 20 s, args%s", a.shown.c_str());
            VH_CHECK(c, result == (slow_fails ? 0 : 1), "result", "result %d: %s", result, text.c_str());
            if (kind == 1) VH_CHECK(c, asked_ == 0 && !has(text, "elapsed"), "stopped", "a test is stopped without a timeout, args%s: %s", a.shown.c_str(), text.c_str());
            else { const int rounds = slow_fails ? 1 : loop; VH_CHECK(c, asked_ == rounds && times(text, "elapsed") == static_cast<size_t>(rounds), "elapsed", "%d stops and %zu messages of %d: %s", asked_.load(), times(text, "elapsed"), rounds, text.c_str()); VH_CHECK(c, waited >= t - 1, "early", "stopped after %.2f ms, the timeout is %d", waited, t); c.count("timeouts", static_cast<uint64_t>(rounds)); }
            if (slow_fails) VH_CHECK(c, has(text, "slow failure") && has(text, "<slow>"), "failure", "%s", text.c_str());
        }
        else
        {
            // the token given to the map reaches the test, with a timeout and without
            at::Shutdown(); at::TestLink link("Slow_Test", &slow); std::stop_source src; Given g; g.present = r.flip(); g.name = "timeout"; g.text = "600000"; asked_ = 0; waited_out = false; wait_ms = -1; slow_fails = false;
            if (t % 3 == 0) src.request_stop(); std::jthread stopper([&] { vh::nap_us(static_cast<unsigned>(t) * 300); src.request_stop(); });
            std::string text; { Capture cap; awl::ostringstream out; auto map = at::CreateTestMap(); VH_CHECK(c, map->GetTestCount() == 1, "map", "%zu tests", map->GetTestCount()); const at::TestContext context{ out, src.get_token(), g }; map->Run(context, "Slow_Test"); text = out.str(); } at::Shutdown();
            VH_CHECK(c, !never, "never_cancelled", "a cancelled test is not asked to stop within 20 s");
            VH_CHECK(c, asked_ == 1 && !has(text, "elapsed"), "cancelled", "%d stops after a cancellation: %s", asked_.load(), text.c_str()); c.count("cancellations");
        }
        c.distinct(vh::mix(static_cast<uint64_t>(kind * 100 + t))); if (c.want_sample()) c.sample(fmt("kind %d, %d ms", kind, t));
    });
}
VH_MAIN()
