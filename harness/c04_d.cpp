#include "c04.hpp"
void part4(vh::Harness &h) { C04_PAIR(int, long, 2, 100) C04_PAIR(double, float, 7, 100) }
