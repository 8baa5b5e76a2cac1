// C05: source positions and progress
#include <iomanip>
#include <iostream>
#include <sstream>
#include <sm/progress_info.hpp>
#include <sm/source_file_pos.hpp>

std::string lhs_text(const sm::source_file_pos &p) { return p.toString(); }
std::string rhs_text(const sm::source_file_pos &p) {
  std::stringstream s;
  s << p.file << ":" << p.line << ": " << p.function << "()";
  return s.str();
}

std::string lhs_converted(sm::source_file_pos &p) { return p; }
std::string rhs_converted(sm::source_file_pos &p) {
  std::stringstream s;
  s << p.file << ":" << p.line << ": " << p.function << "()";
  return s.str();
}

std::ostream &lhs_printed(std::ostream &out, const sm::source_file_pos &p) { return out << p; }
std::ostream &rhs_printed(std::ostream &out, const sm::source_file_pos &p) { return out << p.file << ":" << p.line << ": " << p.function << "()"; }

void lhs_made(std::string f, std::string n, int l, std::string &a, std::string &b, int &c) {
  sm::source_file_pos p(f, n, l);
  a = p.function;
  b = p.file;
  c = p.line;
}
void rhs_made(std::string f, std::string n, int l, std::string &a, std::string &b, int &c) {
  a = f;
  b = n;
  c = l;
}

void lhs_progress(double progress) { sm::showProgress(progress); }
void rhs_progress(double progress) {
  SM_ASSERT_GE_DBG(std::runtime_error, progress, 0.0, "");
  SM_ASSERT_LE_DBG(std::runtime_error, progress, 1.0, "");
  std::cout << std::fixed << std::setprecision(2) << std::showpoint;
  if (progress >= 1.0) {
    std::cout << "\r" << "Complete!             " << std::endl;
  } else {
    std::cout << "\r" << 100 * progress << "% complete ";
    std::cout.flush();
  }
}

void lhs_part(int done, int all) { sm::showProgress(done, all); }
void rhs_part(int done, int all) {
  SM_ASSERT_GT(std::runtime_error, all, 0, "");
  sm::showProgress(static_cast<double>(done) / static_cast<double>(all));
}
void lhs_share(size_t done, size_t all) { sm::showProgress(done, all); }
void rhs_share(size_t done, size_t all) {
  SM_ASSERT_GT(std::runtime_error, all, 0, "");
  sm::showProgress(static_cast<double>(done) / static_cast<double>(all));
}
