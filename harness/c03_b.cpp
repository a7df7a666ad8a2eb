#include "c03.hpp"
void part2(vh::Harness &h) { C03_RANK(5, 200) C03_RANK(6, 160) C03_RANK(7, 80) }
