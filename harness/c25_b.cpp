#include "c25_impl.hpp"
template void whole<3>(vh::Case &);
