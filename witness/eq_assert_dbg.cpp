// FLAGS: -DDBG
#include "assert_relations.inc"
