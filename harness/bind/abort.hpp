// Included first into the bindings: their std::abort() becomes an exception the harness can catch.
#pragma once
#include <cstdlib>
#include <exception>
#include <stdexcept>
#include <string>
namespace std {
[[noreturn]] void verif_abort();
}
using std::verif_abort;
#define abort verif_abort
