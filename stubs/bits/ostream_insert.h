#pragma once
#include <iosfwd>
#include <bits/cxxabi_forced.h>
#include <bits/exception_defines.h>
namespace std {
template <class C, class T>
basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *, streamsize) {
    return o;
}
}  // namespace std
