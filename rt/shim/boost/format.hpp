// Stand-in: formatted messages are not observed.
#pragma once
#include <string>
#include <iostream>
namespace boost { struct format { std::string s; explicit format(const char *f) : s(f) {} template <class T> format &operator%(const T &) { return *this; } }; inline std::string str(const format &f) { return f.s; } }
