// Symbolic execution stand-in: text formatting and output have no effect on
// the checked properties, so streams swallow everything.
#pragma once
#include <bits/ostream_insert.h>
#include <ios>
#include <string>
namespace std {
template <class C, class T>
class basic_ostream {
public:
    typedef C char_type;
    typedef T traits_type;
    constexpr basic_ostream() {}
    template <class S>
    explicit basic_ostream(S *) {}
    template <class V>
    basic_ostream &operator<<(const V &) {
        return *this;
    }
    basic_ostream &operator<<(basic_ostream &(*)(basic_ostream &)) { return *this; }
    basic_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
    basic_ostream &put(C) { return *this; }
    basic_ostream &write(const C *, streamsize) { return *this; }
    basic_ostream &flush() { return *this; }
    streamsize precision(streamsize = 0) { return 0; }
    streamsize width(streamsize = 0) { return 0; }
    C fill(C c = C()) { return c; }
    ios_base::fmtflags flags() const { return ios_base::fmtflags(); }
    ios_base::fmtflags flags(ios_base::fmtflags) { return ios_base::fmtflags(); }
    ios_base::fmtflags setf(ios_base::fmtflags) { return ios_base::fmtflags(); }
    ios_base::fmtflags setf(ios_base::fmtflags, ios_base::fmtflags) {
        return ios_base::fmtflags();
    }
    void unsetf(ios_base::fmtflags) {}
    bool good() const { return true; }
    bool fail() const { return false; }
    bool bad() const { return false; }
    bool eof() const { return false; }
    void clear() {}
    explicit operator bool() const { return true; }
    bool operator!() const { return false; }
};
template <class C, class T>
basic_ostream<C, T> &endl(basic_ostream<C, T> &o) {
    return o;
}
template <class C, class T>
basic_ostream<C, T> &ends(basic_ostream<C, T> &o) {
    return o;
}
template <class C, class T>
basic_ostream<C, T> &flush(basic_ostream<C, T> &o) {
    return o;
}
}  // namespace std
