#include "assert_relations.inc"
