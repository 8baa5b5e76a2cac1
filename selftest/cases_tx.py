import os
H = "sm_common/include/sm/string_routines.hpp"
h = open(os.environ.get("SM_BASE", "/repo") + "/" + H).read()
R = h[h.index("        std::string::size_type pos = 0;\n"):h.index("        return str;")]
i = h.index("    inline std::string replace_reverse")
RR = h[h.index("        std::string::size_type pos = std::string::npos;"):h.index("        return str;", i)]
PADB = h[h.index("        std::string result;\n        if ( str.length()"):h.index("        return result;\n")]
j = h.index("    inline std::string substituteEnvVars")
ENV = h[h.index("        std::string::size_type off = 0, pidx", j):h.index("        return out.str();", j)]
SL = h[h.index("        if(s.size() == 0)\n            return"):h.index("        return s + \"/\";")]
TS = h[h.index("\t\tConstIterator i = begin;\n\t\tstream << prefix;"):h.index("\t\tstream << postfix;")]
CASES = [
 ("C02", "bug", H, R, R.replace("            pos++;\n", "            if(replacement == target) pos++;\n").replace("skip--;", "skip--; pos++;")),
 ("C02", "bug", H, R, R.replace("            pos++;\n", "            if(target != replacement) pos++;\n")),
 ("C02", "bug", H, R, R.replace("pos++", "pos += 2")),
 ("C02", "bug", H, R, R.replace("size_type pos = 0", "size_type pos = skip")),
 ("C02", "bug", H, R, R.replace("if(skip)", "if(skip > 1)")),
 ("C02", "bug", H, RR, RR.replace("            if(pos == 0)\n                break;\n", "")),
 ("C02", "bug", H, RR, RR.replace("            if(pos == 0)\n                break;\n", "            if(pos == 1)\n                break;\n")),
 ("C02", "bug", H, RR, RR.replace("            if(skip)", "            if(pos == 0)\n                break;\n            if(skip)").replace("            if(pos == 0)\n                break;\n            pos--", "            pos--")),
 ("C02", "bug", H, RR, RR.replace("npos;\n        while", "npos - 1;\n        while").replace("size_type pos = std::string::npos - 1", "size_type pos = str.size() ? str.size() - 2 : 0")),
 ("C02", "bug", H, PADB, PADB.replace("desiredLength - str.length()", "desiredLength")),
 ("C02", "bug", H, PADB, PADB.replace("padding.append(str)", "str.append(padding)")),
 ("C02", "bug", H, ENV, ENV.replace("off = idxe+1;", "off = idx+1;")),
 ("C02", "bug", H, ENV, ENV.replace("off = idxe+1;", "if(envSub != NULL) off = idxe+1;")),
 ("C02", "bug", H, ENV, ENV.replace("                    pidx = idxe+1;\n", "").replace("off = idxe+1;", "pidx = off = idxe+1;")),
 ("C02", "bug", H, ENV, ENV.replace("idxe-idx-2", "idxe-idx-1")),
 ("C02", "bug", H, ENV, ENV.replace("s.find(')',idx)", "s.find(')',off)")),
 ("C02", "bug", H, ENV, ENV.replace("out << s.substr(pidx);", "if(pidx) out << s.substr(pidx);")),
 ("C02", "bug", H, SL, SL.replace("'/'", "'\\\\'")),
 ("C02", "bug", H, TS, TS.replace("\t\tif(i != end)\n", "")),
 ("C02", "bug", H, TS, TS.replace("i++;", "")),
 # holds
 ("C02", "quiet", H, R, R.replace("if(skip)", "if(skip > 0)").replace("skip--;", "--skip;").replace("pos++;", "++pos;")),
 ("C02", "quiet", H, R, "        for(std::string::size_type pos = str.find(target); pos != std::string::npos; pos = str.find(target, pos + 1))\n        {\n            if(skip) { skip--; continue; }\n            str[pos] = replacement;\n        }\n"),
 ("C02", "quiet", H, R, "        unsigned int seen = 0;\n        for(size_t i = 0; i < str.length(); i++)\n        {\n            if(str[i] != target) continue;\n            if(seen < skip) seen++;\n            else str[i] = replacement;\n        }\n") if False else ("C02", "quiet", H, R, "        for(size_t i = 0; i < str.length(); i++)\n        {\n            if(str[i] != target) continue;\n            if(skip != 0) skip--;\n            else str[i] = replacement;\n        }\n"),
 ("C02", "quiet", H, R, "        for(auto & c : str)\n            if(c == target)\n            {\n                if(skip) { --skip; }\n                else { c = replacement; }\n            }\n"),
 ("C02", "quiet", H, R, R.replace("        while( (pos = str.find(target, pos)) != std::string::npos)\n        {\n", "        for(;;)\n        {\n            pos = str.find(target, pos);\n            if(pos == std::string::npos) break;\n")),
 ("C02", "quiet", H, ["    /// replaces the 'target' with 'replacement' searching forward", R], ["    inline void step(std::string& s, std::string::size_type pos, char r, unsigned int& skip) { if(skip == 0) s[pos] = r; else skip--; }\n    /// replaces the 'target' with 'replacement' searching forward", "        std::string::size_type pos = 0;\n        while( (pos = str.find(target, pos)) != std::string::npos)\n            step(str, pos++, replacement, skip);\n"]),
 ("C02", "quiet", H, RR, "        for(std::string::size_type i = str.size(); i > 0; --i)\n        {\n            if(str[i - 1] != target) continue;\n            if(skip) skip--; else str[i - 1] = replacement;\n        }\n"),
 ("C02", "quiet", H, RR, "        for(std::string::size_type i = str.size(); i-- > 0; )\n        {\n            char & c = str[i];\n            if(c != target) continue;\n            if(skip) skip--; else c = replacement;\n        }\n"),
 ("C02", "quiet", H, RR, "        for(std::string::reverse_iterator i = str.rbegin(); i != str.rend(); ++i)\n        {\n            if(*i != target) continue;\n            if(skip) skip--; else *i = replacement;\n        }\n"),
 ("C02", "quiet", H, RR, RR.replace("            if(pos == 0)\n                break;\n            pos--;\n", "            if(pos-- == 0)\n                break;\n")),
 ("C02", "quiet", H, PADB, "        std::string result(str);\n        if(str.size() < desiredLength) result.insert(0, std::string(desiredLength - str.size(), padChar));\n"),
 ("C02", "quiet", H, PADB, "        std::string result;\n        if(!(str.length() < desiredLength)) return str;\n        result = std::string(desiredLength - str.length(), padChar) + str;\n"),
 ("C02", "quiet", H, ENV, ENV.replace("idx = std::string::npos;", "break;")),
 ("C02", "quiet", H, ENV, ENV.replace("                off = idxe+1;\n                idx = s.find(\"$(\",off);", "                idx = s.find(\"$(\",idxe + 1);")),
 ("C02", "quiet", H, ENV, ENV.replace("out << s.substr(pidx,idx-pidx);\n                    out << envSub;", "out << s.substr(pidx,idx-pidx) << envSub;").replace("char * envSub", "const char * const envSub")),
 ("C02", "quiet", H, ENV, ENV.replace("        idx = s.find(\"$(\",off);\n        while(idx != std::string::npos){", "        while((idx = s.find(\"$(\",off)) != std::string::npos){").replace("                idx = s.find(\"$(\",off);\n", "").replace("idx = std::string::npos;", "break;")),
 ("C02", "quiet", H, ENV, ENV.replace("if(idxe != std::string::npos) {", "if(idxe == std::string::npos) break;\n            {").replace("else {\n                // No close brackets means no env vars.\n                idx = std::string::npos;\n            }", "")),
 ("C02", "quiet", H, SL, "        if(!s.empty() && s.back() == '/') return s;\n"),
 ("C02", "quiet", H, SL, "        if(s.empty()) return \"/\";\n        if(*s.rbegin() == '/') return s;\n") if False else ("C02", "quiet", H, SL, "        const bool has = s.size() > 0 && s[s.size() - 1] == '/';\n        if(has) return s;\n"),
 ("C02", "quiet", H, TS, "\t\tConstIterator i = begin;\n\t\tstream << prefix;\n\t\tif(i != end) stream << *i++;\n\t\twhile(i != end)\n\t\t{\n\t\t\tstream << delimiter;\n\t\t\tstream << *i;\n\t\t\t++i;\n\t\t}\n"),
 ("C02", "quiet", H, TS, "\t\tstream << prefix;\n\t\tbool first = true;\n\t\tfor(ConstIterator i = begin; i != end; ++i)\n\t\t{\n\t\t\tif(!first) stream << delimiter;\n\t\t\tfirst = false;\n\t\t\tstream << *i;\n\t\t}\n"),
 ("C02", "quiet", H, TS, TS.replace("i++;\n\t\t\tfor( ; i != end; ++i)\n\t\t\t\tstream << delimiter << *i;", "for(++i; i != end; ++i)\n\t\t\t{\n\t\t\t\tstream << delimiter;\n\t\t\t\tstream << *i;\n\t\t\t}")),
 ("C02", "quiet", H, TS, "\t\tstream << prefix;\n\t\tfor(ConstIterator i = begin; i != end; ++i)\n\t\t{\n\t\t\tif(i != begin) stream << delimiter;\n\t\t\tstream << *i;\n\t\t}\n"),
 ("C02", "bug", H, '<< "," << w << "," << x <<"]";', '<< "," << w << x <<"]";'),
 ("C02", "bug", H, 'for( ; i != end; ++i){\n\t\t\t\tstream << delimiter;', 'for( ; i != end; ++i){\n\t\t\t\tif(i + 1 != end) stream << delimiter;'),
 ("C02", "bug", H, "(T*)(thearr + size)", "(T*)(thearr + size - 1)"),
 ("C02", "quiet", H, "return arrToString((T*)thearr, (T*)(thearr + size));", "T* const stop = thearr + size;\n        return arrToString(thearr, stop);"),
 ("C02", "quiet", H, 's << "[" << t << "," << u << "]";', "s << '[' << t;\n\t\ts << ',' << u;\n\t\ts << ']';"),
    ("C02", "bug", 'sm_common/include/sm/string_routines.hpp', ['s.precision(precision);\n\t\ts << std::fixed'], ['s << std::fixed']),
    ("C02", "bug", 'sm_common/include/sm/string_routines.hpp', ['precision + 7'], ['precision + 6']),
    ("C02", "bug", 'sm_common/include/sm/string_routines.hpp', ['s.fill(fillChar);'], ['']),
    ("C02", "bug", 'sm_common/include/sm/string_routines.hpp', ['std::ios::scientific,'], ['std::ios::fixed,']),
    ("C02", "quiet", 'sm_common/include/sm/string_routines.hpp', ['#include <sstream>', 's.width(digits);'], ['#include <sstream>\n#include <iomanip>', 's << std::setw(digits);']),
    ("C02", "quiet", 'sm_common/include/sm/string_routines.hpp', ['s.precision(precision);\n\t\ts << std::fixed'], ['s << std::fixed;\n\t\ts.precision(precision);\n\t\ts']),
    ("C02", "quiet", 'sm_common/include/sm/string_routines.hpp', ['s.setf(std::ios::scientific,std::ios::floatfield);'], ['s << std::scientific;']),
]
