// What the translation units of the C37 harness register: the same lists drive the registrations and the expectations.
#pragma once
#include "Awl/StaticChain.h"
#include "Awl/StaticFactory.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

struct Made { virtual ~Made() = default; virtual std::string who() const = 0; };
struct Info { std::string text; int number; Info(std::string t, int n) : text(std::move(t)), number(n) {} Info(const Info&) = delete; };
struct Rare { int n; };  // registered by one unit only
struct Never {};         // registered by none

// names that begin other names, differ in case, in digits, in underscores
#define NAMES_A(X) X(alpha) X(alphabet) X(Alpha) X(al) X(a) X(a_) X(a__) X(shared)
#define NAMES_B(X) X(beta) X(alphabetic) X(ALPHA) X(b1) X(b11) X(b2) X(_b) X(shared)
#define NAMES_C(X) X(gamma) X(alph) X(c0) X(c00) X(C0) X(a_name_that_is_much_longer_than_the_other_ones_and_does_not_fit_into_a_small_string) X(B) X(shared)

// what an object of static storage duration has seen during its initialisation
struct Early { std::string unit; std::vector<std::string> before, after, chain; bool made = false, unknown = false; };
inline std::vector<Early>& early() { static std::vector<Early> v; return v; }
using FactoryChain = awl::StaticChain<awl::FactoryFuncPtr<std::unique_ptr<Made>>>;
