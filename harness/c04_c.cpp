#include "c04.hpp"
void part3(vh::Harness &h) { C04_PAIR(double, int, 1, 100) C04_PAIR(float, double, 4, 100) }
