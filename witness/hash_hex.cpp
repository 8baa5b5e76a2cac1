// C03: hexadecimal text of a hash identifier.
#include <cstring>
#include <string>
#include <random>
#include <mutex>
#include <chrono>
#include <iostream>
#include <unordered_set>
#include <unordered_map>
#include <sstream>
#include <iomanip>
#include <algorithm>
#define private public
#include <sm/hash_id.hpp>
using sm::HashId;
bool decode(HashId& h, const std::string& text) { return h.fromHexString(text); }
std::string encode(const HashId& h) { return h.hexString(); }
