// Stand-in for tlx/logger.hpp (the tlx submodule is not in this tree): the
// logging macros evaluate to nothing.  Used only by /verif's harnesses and by
// the extraction for the verifier.
#pragma once
#include <iostream>
#include <sstream>
struct VNullLog {
    template <typename T>
    const VNullLog& operator << (const T&) const { return *this; }
};
#define LOG0 VNullLog()
#define LOG1 VNullLog()
#define LOG VNullLog()
#define LOGC(x) VNullLog()
