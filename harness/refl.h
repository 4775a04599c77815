// The reflection library with its messages left out (what is printed is not part of
// these properties) and classes that use every kind of member.
#pragma once
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <cerrno>
#include <string>
#include "datas/master_printer.hpp"
#undef printerror
#undef printwarning
#undef printline
#define printerror(...) ((void)0);
#define printwarning(...) ((void)0);
#define printline(...) ((void)0);
#include "datas/reflector.cpp"
#include "datas/flags.hpp"
#include "datas/bitfield.hpp"
#include "datas/vectors.hpp"
typedef Reflector::ErrorType Err;
