// An archive the analysis knows: what is written to it is read back in the same order.
template <bool Loading>
struct Tape {
  typedef boost::mpl::bool_<Loading> is_loading;
  typedef boost::mpl::bool_<!Loading> is_saving;
  template <typename T> Tape& operator<<(const T& x);
  template <typename T> Tape& operator>>(const T& x);
  template <typename T> Tape& operator&(const T& x);
};
