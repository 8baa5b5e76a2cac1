import os
H = "sm_common/include/sm/hash_id.hpp"
S = "sm_common/src/hash_id.cpp"
h = open(os.environ.get("SM_BASE", "/repo") + "/" + H).read()
FIX = h[h.index("    if (hexString.find_first_not_of"):h.index("    for (size_t i = 0; i < sizeof(val_); ++i){\n      val_.c")]
DEC = h[h.index("    for (size_t i = 0; i < sizeof(val_); ++i){\n      val_.c"):h.index("    return true;\n  }\n\n  /**\n   * Rehashes")]
ENC = h[h.index("    char buffer[2*sizeof(val_) + 1]"):h.index("    return std::string(buffer);")]
ST = "          stoul(std::string(hexString, 2*i, 2), 0, 16));"
CASES = [
 ("C03", "bug", H, FIX, ""),
 ("C03", "bug", H, "abcdefABCDEF\"", "abcdef\""),
 ("C03", "bug", H, "abcdefABCDEF\"", "abcdefABCDEF \""),
 ("C03", "bug", H, "if (hexString.size() != 2*sizeof(val_))", "if (hexString.size() < 2*sizeof(val_))"),
 ("C03", "bug", H, ST, ST.replace("2*i, 2", "i, 2")),
 ("C03", "bug", H, ST, ST.replace("0, 16", "0, 10")),
 ("C03", "bug", H, DEC, DEC.replace("i < sizeof(val_)", "i < sizeof(val_) - 1")),
 ("C03", "bug", H, DEC, DEC.replace("val_.c[i]", "val_.c[15 - i]")),
 ("C03", "bug", H, [FIX, DEC], ["", "    try {\n" + DEC + "    } catch(const std::exception&) { return false; }\n"]),
 ("C03", "bug", H, [FIX, DEC], ["", "    for (size_t i = 0; i < sizeof(val_); ++i){\n      if(!isxdigit(hexString[2*i]) || !isxdigit(hexString[2*i+1])) return false;\n      val_.c[i] = static_cast<unsigned char>(stoul(std::string(hexString, 2*i, 2), 0, 16));\n    }\n"]),
 ("C03", "bug", H, [FIX], ["    for(size_t i = 0; i < 31; ++i) if(!isxdigit(hexString[i])) return false;\n"]),
 ("C03", "bug", H, [FIX], ["    for(size_t i = 0; i < 32; ++i) { char c = hexString[i]; if(!((c >= '0' && c <= '9') || (c >= 'a' && c < 'f') || (c >= 'A' && c <= 'F'))) return false; }\n"]),
 ("C03", "bug", H, "[val_.c[i] & 0xf]", "[val_.c[i] & 0x7]"),
 ("C03", "bug", H, "buffer[2 * i] = kHexConversion[val_.c[i] >> 4];", "buffer[2 * i] = kHexConversion[val_.c[i ? i : 1] >> 4];"),
 ("C03", "bug", H, ["buffer[2 * i] =", "buffer[2 * i + 1]"], ["buffer[2 * i + 1] =", "buffer[2 * i]"]),
 ("C03", "bug", S, "0123456789abcdef", "0123456789abcedf"),
 ("C03", "bug", S, "0123456789abcdef", "0123456789abcdeF"),
 # holds
 ("C03", "quiet", S, "0123456789abcdef", "0123456789ABCDEF"),
 ("C03", "quiet", H, FIX, "    for(size_t i = 0; i < hexString.size(); ++i) if(!isxdigit(hexString[i])) return false;\n"),
 ("C03", "quiet", H, FIX, "    for(size_t i = 0; i < 2 * sizeof(val_); ++i) if(!std::isxdigit(static_cast<unsigned char>(hexString[i]))) return false;\n"),
 ("C03", "quiet", H, FIX, "    for(char c : hexString) { if(!isxdigit(c)) return false; }\n"),
 ("C03", "quiet", H, FIX, "    for(size_t i = 0; i < 32; ++i) { const char c = hexString[i]; const bool digit = c >= '0' && c <= '9', low = c >= 'a' && c <= 'f', up = c >= 'A' && c <= 'F'; if(!digit && !low && !up) return false; }\n"),
 ("C03", "quiet", H, ["#include", FIX], ["#include <algorithm>\n#include", "    if(!std::all_of(hexString.begin(), hexString.end(), [](char c) { return isxdigit(c) != 0; })) return false;\n"]),
 ("C03", "quiet", H, ["if (hexString.size() != 2*sizeof(val_)){\n      return false;\n    }\n", FIX], ["const size_t n = sizeof(val_);\n", "    if(hexString.length() != 2 * n || hexString.find_first_not_of(\"ABCDEFabcdef0123456789\") != std::string::npos) return false;\n"]),
 ("C03", "quiet", H, [FIX], ["    const bool hex = hexString.find_first_not_of(\"0123456789abcdefABCDEF\") == std::string::npos;\n    if (!hex) return false;\n"]),
 ("C03", "quiet", H, DEC, "    for (size_t i = 0; i < sizeof(val_); ++i){\n      const std::string digits = hexString.substr(2 * i, 2);\n      val_.c[i] = static_cast<unsigned char>(std::stoul(digits, nullptr, 16));\n    }\n"),
 ("C03", "quiet", H, DEC, "    for (size_t i = 0; i < sizeof(val_); ++i){\n      val_.c[i] = static_cast<unsigned char>(std::stoi(hexString.substr(2 * i, 2), nullptr, 16));\n    }\n"),
 ("C03", "quiet", H, DEC, "    HashVal v;\n    for (size_t i = 0; i < sizeof(v); ++i)\n      v.c[i] = static_cast<unsigned char>(stoul(hexString.substr(2 * i, 2), 0, 16));\n    val_ = v;\n"),
 ("C03", "quiet", H, [ENC, "return std::string(buffer);"], ["    std::string buffer;\n    buffer.reserve(2 * sizeof(val_));\n    for (size_t i = 0; i < sizeof(val_); ++i){\n      buffer.push_back(kHexConversion[val_.c[i] >> 4]);\n      buffer.push_back(kHexConversion[val_.c[i] & 0xf]);\n    }\n", "return buffer;"]),
 ("C03", "quiet", H, [ENC, "return std::string(buffer);"], ["    std::string buffer;\n    for (unsigned char c : val_.c) {\n      buffer += kHexConversion[c >> 4];\n      buffer += kHexConversion[c & 15];\n    }\n", "return buffer;"]),
 ("C03", "quiet", H, [ENC, "return std::string(buffer);"], ["    std::string buffer(2 * sizeof(val_), '0');\n    for (size_t i = 0; i < sizeof(val_); ++i){\n      const unsigned char c = val_.c[i];\n      buffer[2 * i] = kHexConversion[c / 16];\n      buffer[2 * i + 1] = kHexConversion[c % 16];\n    }\n", "return buffer;"]),
 ("C03", "quiet", H, "return std::string(buffer);", "return std::string(buffer, 2 * sizeof(val_));"),
]
