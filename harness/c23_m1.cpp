#include "c23.hpp"
void c23::add_m1() { add_one_through<1>(std::make_integer_sequence<int, na>()); add_through<1>(std::make_integer_sequence<int, na * na>()); }
