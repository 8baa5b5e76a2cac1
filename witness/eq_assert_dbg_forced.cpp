// FLAGS: -DDBG -DNDEBUG -DSM_ALWAYS_ASSERT
#include "assert_relations.inc"
