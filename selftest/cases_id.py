I = "sm_common/include/sm/Id.hpp"
H = "sm_common/include/sm/hash_id.hpp"
CASES = [
 ("C01", "bug", I, "return _id <= other._id;", "return _id < other._id;"),
 ("C01", "bug", I, "return other._id != _id;", "return int(other._id) != int(_id - 1);"),
 ("C01", "bug", H, "return val_.u64[1] < other.val_.u64[1];", "return val_.u64[1] <= other.val_.u64[1];"),
 ("C01", "quiet", H, "return val_.u64[0] > other.val_.u64[0];", "return val_.u64[0] >= other.val_.u64[0];"),
 ("C01", "bug", H, "memcpy(&val_, &other.val_, sizeof(val_));", "memcpy(&val_.u64, &other.val_.u64, sizeof(val_.u64[0]));"),
 ("C01", "bug", H, "val_.u64[0] != 0 || val_.u64[1] != 0", "val_.u64[0] != 0 && val_.u64[1] != 0"),
 ("C01", "bug", H, "memset(&val_, 0, sizeof(val_));", "memset(&val_.u64[0], 0, sizeof(val_.u64[0]));"),
 ("C01", "bug", H, "    size_t hash = HashPrimeAndBase::kOffsetBasis;\n    hash ^= val_.u64[0];\n    hash *=", "    size_t hash = reinterpret_cast<size_t>(this);\n    hash ^= val_.u64[0];\n    hash *="),
 ("C01", "bug", I, "      ++_id;\n            return (*this);", "      return (*this);") if False else ("C01", "bug", I, "        Id rval(_id);\n      ++_id;", "      ++_id;\n        Id rval(_id);"),
 ("C01", "quiet", H, "    if (val_.u64[0] == other.val_.u64[0]){\n      return val_.u64[1] < other.val_.u64[1];\n    }\n    return val_.u64[0] < other.val_.u64[0];", "    if (val_.u64[0] != other.val_.u64[0])\n      return val_.u64[0] < other.val_.u64[0];\n    return val_.u64[1] < other.val_.u64[1];"),
 ("C01", "quiet", H, "    if (val_.u64[0] == other.val_.u64[0]){\n      return val_.u64[1] > other.val_.u64[1];\n    }\n    return val_.u64[0] > other.val_.u64[0];", "    return other < *this;"),
 ("C01", "quiet", H, "memcpy(&val_, &other.val_, sizeof(val_));", "val_ = other.val_;"),
 ("C01", "quiet", H, "memcpy(&val_, &other.val_, sizeof(val_));", "val_.u64[0] = other.val_.u64[0];\n    val_.u64[1] = other.val_.u64[1];"),
 ("C01", "quiet", H, "memset(&val_, 0, sizeof(val_));", "for (size_t i = 0; i < 2; ++i) val_.u64[i] = 0;"),
 ("C01", "quiet", I, "return _id >= other._id;", "return !(*this < other);"),
 ("C01", "quiet", I, "      ++_id;\n      return (*this);", "      _id += 1;\n      return *this;"),
    ("C01", "bug", 'sm_common/include/sm/hash_id.hpp', 'generated.randomize();', ''),
    ("C01", "bug", 'sm_common/include/sm/hash_id.hpp', 'val_.u64[1] = rng();', 'val_.u64[1] = val_.u64[0];'),
    ("C01", "bug", 'sm_common/include/sm/hash_id.hpp', 'val_.u64[1] = rng();', ''),
    ("C01", "quiet", 'sm_common/include/sm/hash_id.hpp', 'val_.u64[0] = rng();\n      val_.u64[1] = rng();', 'for (int i = 0; i < 2; ++i) val_.u64[i] = rng();'),
    ("C01", "quiet", 'sm_common/include/sm/hash_id.hpp', 'val_.u64[0] = rng();\n      val_.u64[1] = rng();', 'const uint64_t drawn[2] = {rng(), rng()};\n      fromUint64(drawn);'),
]
