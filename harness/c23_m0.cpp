#include "c23.hpp"
void c23::add_m0() { add_one_through<0>(std::make_integer_sequence<int, na>()); add_through<0>(std::make_integer_sequence<int, na * na>()); }
