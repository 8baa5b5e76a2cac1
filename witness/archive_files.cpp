// M01: what is written to a file as a matrix archive is what is read from it.
#include <Eigen/Core>
#include <boost/algorithm/string/trim.hpp>
#include <boost/filesystem.hpp>
#include <boost/static_assert.hpp>
#include <cctype>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <sm/assert_macros.hpp>
#define private public
#include <sm/MatrixArchive.hpp>
#undef private

typedef sm::MatrixArchive A;
typedef const std::string& S;
typedef const Eigen::MatrixXd& M;
typedef const std::set<std::string>& Names;

// one block
struct Block {
  A::BlockType type;
  std::string name, text;
  Eigen::MatrixXd matrix;
};
void lhs_matrix_block(A& a, S name, M m, std::ostream& out, std::istream& in, Block& b) {
  a.writeMatrixBlock(out, name, m);
  b.type = a.readBlock(in, b.name, b.matrix, b.text);
}
void rhs_matrix_block(A& a, S name, M m, std::ostream& out, std::istream& in, Block& b) {
  a.validateName(name, SM_SOURCE_FILE_POS);
  b.type = A::MATRIX;
  b.name = name;
  b.matrix = m;
}
void lhs_string_block(A& a, S name, S text, std::ostream& out, std::istream& in, Block& b) {
  a.writeStringBlock(out, name, text);
  b.type = a.readBlock(in, b.name, b.matrix, b.text);
}
void rhs_string_block(A& a, S name, S text, std::ostream& out, std::istream& in, Block& b) {
  a.validateName(name, SM_SOURCE_FILE_POS);
  b.type = A::STRING;
  b.name = name;
  b.text = text;
}

// several blocks
void lhs_load(A& a, const boost::filesystem::path& p, Names only, S name1, S name2, S name3, M m1, M m3, S text2, std::ostream& out) {
  a.writeMatrixBlock(out, name1, m1);
  a.writeStringBlock(out, name2, text2);
  a.writeMatrixBlock(out, name3, m3);
  a.load(p, only);
}
void rhs_load(A& a, const boost::filesystem::path& p, Names only, S name1, S name2, S name3, M m1, M m3, S text2, std::ostream& out) {
  a.validateName(name1, SM_SOURCE_FILE_POS);
  a.validateName(name2, SM_SOURCE_FILE_POS);
  a.validateName(name3, SM_SOURCE_FILE_POS);
  if (only.empty() || only.count(name1) > 0) {
    a.m_values[name1] = m1;
    a.m_strings.erase(name1);
  }
  if (only.empty() || only.count(name2) > 0) {
    a.m_strings[name2] = text2;
    a.m_values.erase(name2);
  }
  if (only.empty() || only.count(name3) > 0) {
    a.m_values[name3] = m3;
    a.m_strings.erase(name3);
  }
}
void lhs_load_all(A& a, const boost::filesystem::path& p, S name1, S name2, M m1, S text2, std::ostream& out) {
  a.writeMatrixBlock(out, name1, m1);
  a.writeStringBlock(out, name2, text2);
  a.load(p);
}
void rhs_load_all(A& a, const boost::filesystem::path& p, S name1, S name2, M m1, S text2, std::ostream& out) {
  a.writeMatrixBlock(out, name1, m1);
  a.writeStringBlock(out, name2, text2);
  a.load(p, std::set<std::string>());
}
void lhs_load_string(A& a, S p, S name1, S name2, M m1, S text2, std::ostream& out) {
  a.writeMatrixBlock(out, name1, m1);
  a.writeStringBlock(out, name2, text2);
  a.load(p);
}
void rhs_load_string(A& a, S p, S name1, S name2, M m1, S text2, std::ostream& out) {
  a.writeMatrixBlock(out, name1, m1);
  a.writeStringBlock(out, name2, text2);
  a.load(boost::filesystem::path(p), std::set<std::string>());
}
void lhs_load_nothing(A& a, const boost::filesystem::path& p, Names only) { a.load(p, only); }
void rhs_load_nothing(A& a, const boost::filesystem::path& p, Names only) {}

// what is saved: each entry asked for, one after the other
void rhs_save(A& a, const boost::filesystem::path& p, Names only) {
  std::ofstream out;
  for (A::matrix_map_t::const_iterator it = a.m_values.begin(); it != a.m_values.end(); ++it)
    if (only.empty() || only.count(it->first) > 0) a.writeMatrixBlock(out, it->first, it->second);
  for (A::string_map_t::const_iterator it = a.m_strings.begin(); it != a.m_strings.end(); ++it)
    if (only.empty() || only.count(it->first) > 0) a.writeStringBlock(out, it->first, it->second);
}
void lhs_save(A& a, const boost::filesystem::path& p, Names only) { a.save(p, only); }
void lhs_append(A& a, const boost::filesystem::path& p, Names only) { a.append(p, only); }
void rhs_append(A& a, const boost::filesystem::path& p, Names only) { rhs_save(a, p, only); }
void lhs_save_all(A& a, const boost::filesystem::path& p) { a.save(p); }
void rhs_save_all(A& a, const boost::filesystem::path& p) { rhs_save(a, p, std::set<std::string>()); }
void lhs_append_all(A& a, const boost::filesystem::path& p) { a.append(p); }
void rhs_append_all(A& a, const boost::filesystem::path& p) { rhs_save(a, p, std::set<std::string>()); }
void lhs_save_string(A& a, S p) { a.save(p); }
void rhs_save_string(A& a, S p) { rhs_save(a, p, std::set<std::string>()); }
void lhs_append_string(A& a, S p) { a.append(p); }
void rhs_append_string(A& a, S p) { rhs_save(a, p, std::set<std::string>()); }

// into a stream of the caller
void lhs_saveTo(A& a, std::ostream& out, Names only) { a.save(out, only); }
void rhs_saveTo(A& a, std::ostream& out, Names only) { rhs_save(a, boost::filesystem::path(), only); }
