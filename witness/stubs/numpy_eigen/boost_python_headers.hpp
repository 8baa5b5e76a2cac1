// stands in for the header of that name of the package numpy_eigen, which is not part of this repository
#pragma once
#include <boost/cstdint.hpp>
#include <boost/python.hpp>
#include <boost/python/return_by_value.hpp>
#include <boost/python/return_internal_reference.hpp>
#include <boost/python/suite/indexing/map_indexing_suite.hpp>
#include <boost/python/suite/indexing/vector_indexing_suite.hpp>
#include <Eigen/Core>
