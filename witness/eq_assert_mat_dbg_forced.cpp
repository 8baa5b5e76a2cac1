// FLAGS: -DDBG -DNDEBUG -DSM_ALWAYS_ASSERT
#include "assert_matrix.inc"
