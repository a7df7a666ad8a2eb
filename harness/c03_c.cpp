#include "c03.hpp"
void part3(vh::Harness &h) { C03_RANK(8, 80) C03_RANK(9, 80) C03_RANK(10, 80) }
