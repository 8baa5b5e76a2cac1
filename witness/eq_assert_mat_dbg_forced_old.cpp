// FLAGS: -DDBG -DNDEBUG -DALWAYS_ASSERT
#include "assert_matrix.inc"
