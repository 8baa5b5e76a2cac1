#include "assert_matrix.inc"
