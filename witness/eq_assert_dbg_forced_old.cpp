// FLAGS: -DDBG -DNDEBUG -DALWAYS_ASSERT
#include "assert_relations.inc"
