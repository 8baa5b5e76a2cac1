// FLAGS: -DDBG
#include "assert_matrix.inc"
