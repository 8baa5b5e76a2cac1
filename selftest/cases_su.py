"""C05: type utilities, source positions, progress."""
T = "sm_common/include/sm/typetraits.hpp"
A = "sm_common/include/sm/aligned_allocation.h"
S = "sm_common/include/sm/source_file_pos.hpp"
P = "sm_common/src/progress_info.cpp"
H = "sm_common/include/sm/progress_info.hpp"
CASES = [
 ("C05", "bug", T, "struct StripReference<const T&>{\n  typedef const T result_t;", "struct StripReference<const T&>{\n  typedef T result_t;"),
 ("C05", "bug", T, "struct StripConstReference<const T>{\n  typedef T result_t;", "struct StripConstReference<const T>{\n  typedef const T result_t;"),
 ("C05", "bug", T, "struct AddPtr<const T*>{\n  typedef const T* result_t;", "struct AddPtr<const T*>{\n  typedef T* result_t;"),
 ("C05", "bug", T, "struct AddConstPtr<T*>{\n  typedef const T* result_t;", "struct AddConstPtr<T*>{\n  typedef T* result_t;"),
 ("C05", "bug", T, "template<typename T>\nstruct IsPointerType<const T*>{\n  enum{\n    value = true", "template<typename T>\nstruct IsPointerType<const T*>{\n  enum{\n    value = false"),
 ("C05", "bug", T, "template <typename T> struct SameType<T,T>{enum { value = true };};", "template <typename T> struct SameType<T,T>{enum { value = true };};\ntemplate <typename T> struct SameType<T,const T>{enum { value = true };};"),
 ("C05", "bug", A, "typedef Container<Type, Eigen::aligned_allocator<Type> > type;", "typedef Container<Type, std::allocator<Type> > type;"),
 ("C05", "bug", A, "Eigen::aligned_allocator<std::pair<const KeyType, ValueType> > > type;\n};\n\ntemplate<typename Type, typename", "std::allocator<std::pair<const KeyType, ValueType> > > type;\n};\n\ntemplate<typename Type, typename"),
 ("C05", "bug", A, "std::forward<Arguments>(arguments)...", "arguments..."),
 ("C05", "bug", S, 's << file << ":" << line << ": " << function << "()";', 's << file << ":" << function << ": " << line << "()";'),
 ("C05", "bug", S, "function(function), file(file)", "function(file), file(function)"),
 ("C05", "bug", S, 'out << sfp.file << ":" << sfp.line', 'out << sfp.file << ":" << (sfp.line + 1)'),
 ("C05", "bug", P, "progress >= 1.0", "progress > 1.0"),
 ("C05", "bug", P, "100 * progress", "10 * progress"),
 ("C05", "bug", H, "static_cast<double>(done) / static_cast<double>(all)", "static_cast<double>(done / all)"),
 ("C05", "bug", H, "SM_ASSERT_GT(std::runtime_error, all, 0", "SM_ASSERT_GE(std::runtime_error, all, 0"),
 ("C05", "quiet", H, "showProgress(static_cast<double>(done) / static_cast<double>(all));", "const double d = static_cast<double>(done);\n        const double a = static_cast<double>(all);\n        showProgress(d / a);"),
 ("C05", "quiet", H, "SM_ASSERT_GT(std::runtime_error, all, 0, \"#DIV0\");", "if(!(all > 0)) { SM_THROW(std::runtime_error, \"nothing to do\"); }"),
 ("C05", "quiet", P, "if(progress >= 1.0)\n\t{", "const bool complete = !(progress < 1.0);\n\tif(complete)\n\t{"),
 ("C05", "quiet", P, '<< "% complete ";\n\t\tstd::cout.flush();', '<< "% complete " << std::flush;'),
 ("C05", "quiet", S, '      std::stringstream s;\n      s << file << ":" << line << ": " << function << "()";\n      return s.str();', '      std::ostringstream text;\n      text << file << ":" << line;\n      text << ": " << function << "()";\n      return text.str();'),
 ("C05", "quiet", S, '      s << file << ":" << line << ": " << function << "()";', "      const std::string where = file;\n      s << where << ':' << line << \": \" << function << \"()\";"),
 ("C05", "quiet", T, "template<typename T>\nstruct StripReference<T&>{\n  typedef T result_t;\n};", "template<typename T>\nstruct StripReference<T&>{\n  using result_t = T;\n};"),
 ("C05", "quiet", A, "typedef typename std::remove_const<Type>::type TypeNonConst;", "using TypeNonConst = std::remove_const_t<Type>;"),
 ("C05", "quiet", S, "    operator std::string()\n    {\n      return toString();", "    operator std::string()\n    {\n      const std::string text = toString();\n      return text;"),
]
