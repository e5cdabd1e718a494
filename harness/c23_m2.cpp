#include "c23.hpp"
void c23::add_m2() { add_one_through<2>(std::make_integer_sequence<int, na>()); add_through<2>(std::make_integer_sequence<int, na * na>()); }
