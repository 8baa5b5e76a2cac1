// Loading a matrix consumes exactly what saving one wrote, and only if the fixed dimensions agree.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/mpl/bool.hpp>
#include <sm/eigen/serialization.hpp>
#include "tape.inc"

typedef Eigen::Matrix<double, 3, 2> Fixed;
typedef Eigen::Matrix<double, Eigen::Dynamic, 2> Rows;
typedef Eigen::Matrix<double, 3, Eigen::Dynamic> Cols;
typedef Eigen::MatrixXd Both;
typedef Eigen::Vector3d Vector;
typedef Eigen::VectorXd Column;
typedef Eigen::RowVectorXd Row;
typedef Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RowMajor;
typedef Eigen::Matrix<float, 4, 4, Eigen::RowMajor> FixedRowMajor;

#define ROUND(FROM, TO)                                       \
  void round_##FROM##_##TO(const FROM& a, TO& b) {            \
    Tape<false> out;                                          \
    Tape<true> in;                                            \
    boost::serialization::save(out, a, 0);                    \
    boost::serialization::load(in, b, 0);                     \
  }

ROUND(Fixed, Fixed)
ROUND(Rows, Rows)
ROUND(Cols, Cols)
ROUND(Both, Both)
ROUND(Vector, Vector)
ROUND(Column, Column)
ROUND(Row, Row)
ROUND(RowMajor, RowMajor)
ROUND(FixedRowMajor, FixedRowMajor)
ROUND(Both, Fixed)
ROUND(Both, Rows)
ROUND(Both, Cols)
ROUND(Both, Column)
ROUND(Both, Row)
ROUND(Both, Vector)
ROUND(Fixed, Both)
ROUND(Rows, Both)
ROUND(Cols, Both)
ROUND(Cols, Rows)
ROUND(Rows, Cols)
ROUND(Fixed, Cols)
ROUND(Fixed, Rows)
ROUND(Rows, Fixed)
ROUND(Cols, Fixed)

typedef Eigen::Transform<double, 3, Eigen::Affine> Affine;
void transform_Affine(Affine& a, Affine& b) {
  Tape<false> out;
  Tape<true> in;
  boost::serialization::serialize(out, a, 0);
  boost::serialization::serialize(in, b, 0);
}
typedef Eigen::Transform<float, 2, Eigen::Isometry> Isometry;
void transform_Isometry(Isometry& a, Isometry& b) {
  Tape<false> out;
  Tape<true> in;
  boost::serialization::serialize(out, a, 0);
  boost::serialization::serialize(in, b, 0);
}
