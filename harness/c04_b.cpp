#include "c04.hpp"
void part2(vh::Harness &h) { C04_PAIR(int, double, 3, 100) C04_PAIR(int, double, 10, 50) }
