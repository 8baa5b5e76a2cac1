MA = "sm_matrix_archive/src/MatrixArchive.cpp"
MH = "sm_matrix_archive/include/sm/MatrixArchive.hpp"
CASES = [
    ("M01", "bug", MA, "fout.width(s_fixedNameSize);", "fout.width(s_fixedNameSize - 1);"),
    ("M01", "bug", MA, "fout.width(s_fixedNameSize);", "fout.width(name.size());"),
    ("M01", "bug", MA, "fout.fill(' ');", "fout.fill('_');"),
    ("M01", "bug", MA, "boost::trim(name);", "boost::trim_right(name);"),
    ("M01", "bug", MA, "nameBuffer[s_fixedNameSize] = '\\0';", "nameBuffer[0] = '\\0';"),
    ("M01", "bug", MA, "matrix.resize(rows,cols);", "matrix.resize(cols,rows);"),
    ("M01", "bug", MA, "boost::uint32_t rows = matrix.rows();", "boost::uint32_t rows = matrix.cols();"),
    ("M01", "bug", MA, "dataSize = (std::streamsize)rows * cols * sizeof(double);\n    fout", "dataSize = (std::streamsize)rows * cols * sizeof(float);\n    fout"),
    ("M01", "bug", MA, "std::streamsize dataSize = (std::streamsize)rows * cols * sizeof(double);\n    fout", "boost::uint32_t dataSize = rows * cols * sizeof(double);\n    fout"),
    ("M01", "bug", MA, "boost::uint32_t stringSize = stringValue.size();", "boost::uint32_t stringSize = name.size();"),
    ("M01", "bug", MA, "stringValue.resize(stringSize);", "if (stringValue.size() < stringSize) stringValue.resize(stringSize);"),
    ("M01", "bug", MA, "    saveStrings(fout, validNames);", "    if (!m_values.empty()) saveStrings(fout, validNames);"),
    ("M01", "bug", MA, "if(validNames.empty() || validNames.count(it->first) > 0)\n      {\n        writeStringBlock", "if(validNames.empty() || validNames.count(it->first) > 1)\n      {\n        writeStringBlock"),
    ("M01", "bug", MA, "if(validNames.empty() || validNames.count(it->first) > 0)\n      {\n        if(isSystem", "if(it->second.size() > 0 && (validNames.empty() || validNames.count(it->first) > 0))\n      {\n        if(isSystem"),
    ("M01", "bug", MA, "m_values[name] = matrix;\n            m_strings.erase(name);\n            break;", "m_values[name] = matrix;\n            m_strings.erase(name);\n"),
    ("M01", "bug", MA, "m_strings[name] = valueString;\n            m_values.erase(name);", "m_strings.insert(std::make_pair(name, valueString));\n            m_values.erase(name);"),
    ("M01", "bug", MA, "      fin.peek();\n    }", "    }"),
    ("M01", "bug", MA, "if(validNames.empty() || validNames.count(name) > 0)", "if(validNames.count(name) > 0)"),
    ("M01", "bug", MA, "fout.write(&stringValue[0], stringSize);", "fout.write(stringValue.c_str(), stringSize + 1);"),
    ("M01", "bug", MA, "    std::set<std::string> names;\n    load(amaFilePath,names);\n  }\n  void", "    std::set<std::string> names;\n    for (matrix_map_t::const_iterator it = begin(); it != end(); ++it) names.insert(it->first);\n    load(amaFilePath,names);\n  }\n  void"),
    ("M01", "quiet", MA, "fout << name;", "fout << std::left << name;"),
    ("M01", "quiet", MA, ["#include <cstdio>", "fout.fill(' ');\n    fout.width(s_fixedNameSize);\n    fout << name;"], ["#include <iomanip>", "fout << std::setfill(' ') << std::setw(s_fixedNameSize) << name;"]),
    ("M01", "quiet", MA, "fout.fill(' ');\n    fout.width(s_fixedNameSize);\n    fout << name;", "std::string padded(s_fixedNameSize - name.size(), ' ');\n    padded += name;\n    fout.write(padded.c_str(), s_fixedNameSize);"),
    ("M01", "quiet", MA, "fout.fill(' ');\n    fout.width(s_fixedNameSize);\n    fout << name;", "fout << std::string(s_fixedNameSize - name.size(), ' ') << name;"),
    ("M01", "quiet", MA, "boost::trim(name);", "boost::trim_left(name);"),
    ("M01", "quiet", MA, "name = nameBuffer;\n    boost::trim(name);", "name = boost::trim_copy(std::string(nameBuffer));"),
    ("M01", "quiet", MA, "name = nameBuffer;", "name.assign(nameBuffer, s_fixedNameSize);"),
    ("M01", "quiet", MA, "name = nameBuffer;", "name = std::string(nameBuffer, s_fixedNameSize);"),
    ("M01", "quiet", MA, "matrix_map_t::const_iterator it = m_values.begin();\n    for( ; it != m_values.end(); it++)\n    {", "for(matrix_map_t::const_iterator it = m_values.begin(); it != m_values.end(); ++it)\n    {"),
    ("M01", "quiet", MA, "string_map_t::const_iterator it = m_strings.begin();\n    for( ; it != m_strings.end(); it++)\n    {\n      if(validNames.empty() || validNames.count(it->first) > 0)\n      {\n        writeStringBlock(fout, it->first, it->second);\n",
     "for(auto const & entry : m_strings)\n    {\n      string_map_t::const_pointer it = &entry;\n      if(validNames.empty() || validNames.count(it->first) > 0)\n      {\n        writeStringBlock(fout, entry.first, entry.second);\n"),
    ("M01", "quiet", MA, "if(validNames.empty() || validNames.count(it->first) > 0)\n      {\n        writeStringBlock", "if(!validNames.empty() && validNames.find(it->first) == validNames.end())\n        continue;\n      {\n        writeStringBlock"),
    ("M01", "quiet", MA, "        switch(blockType){\n          case MATRIX:\n            m_values[name] = matrix;\n            m_strings.erase(name);\n            break;\n          case STRING:\n            m_strings[name] = valueString;\n            m_values.erase(name);\n            break;\n        }",
     "        if (blockType == MATRIX) {\n            m_strings.erase(name);\n            m_values[name] = matrix;\n        } else {\n            m_values.erase(name);\n            m_strings[name] = valueString;\n        }"),
    ("M01", "quiet", MA, "    fin.peek();\n    while(!fin.eof())\n    {", "    while(fin.peek() != EOF)\n    {"),
    ("M01", "quiet", MA, "stringValue.resize(stringSize);\n    fin.read(&stringValue[0], stringSize);\n    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the data of a string\");", "std::vector<char> buffer(stringSize + 1);\n    fin.read(&buffer[0], stringSize);\n    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the data of a string\");\n    stringValue.assign(&buffer[0], stringSize);"),
    ("M01", "quiet", MA, "fout.write(&stringValue[0], stringSize);", "fout.write(stringValue.data(), stringValue.size());"),
    ("M01", "quiet", MA, "fout.write(&s_magicCharEnd,1);\n  }\n\n\n", "fout.put(s_magicCharEnd);\n  }\n\n\n"),
    ("M01", "quiet", MA, "    char start, end;\n    // start character\n    fin.read(&start,1);", "    char end;\n    const char start = fin.get();"),
    ("M03", "bug", MA, "M(0,0) = scalar;\n    m_strings.erase(scalarName);", "M(0,0) = scalar;"),
    ("M03", "bug", MA, "    m_strings.erase(entryName);\n    m_values.erase(entryName);", "    if(m_strings.erase(entryName) == 0) return;\n    m_values.erase(entryName);"),
    ("M03", "bug", MA, "    validateName(stringName, SM_SOURCE_FILE_POS);\n", ""),
    ("M03", "bug", MA, "if(name.size() > s_fixedNameSize || name.size() == 0)", "if(name.size() > s_fixedNameSize + 1 || name.size() == 0)"),
    ("M03", "bug", MA, "for(unsigned i = 1; i < name.size(); i++)", "for(unsigned i = 1; i + 1 < name.size(); i++)"),
    ("M03", "bug", MA, "isalnum((unsigned char)name[i]) || name[i] == '_'", "isalnum((unsigned char)name[i]) || name[i] == '_' || name[i] == ' '"),
    ("M03", "quiet", MA, "    if(m_values.count(stringName) > 0){\n      m_values.erase(stringName);\n    }\n    m_strings[stringName] = value;", "    m_strings[stringName] = value;\n    m_values.erase(stringName);"),
    ("M03", "quiet", MA, "if(name.size() > s_fixedNameSize || name.size() == 0)", "if(name.empty() || !(name.size() <= s_fixedNameSize))"),
    ("M03", "quiet", MA, "for(unsigned i = 1; i < name.size(); i++)", "for(size_t i = 1; i != name.size(); ++i)"),
    ("M02", "bug", MA, "    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the end of a block\");\n", ""),
    ("M02", "bug", MA, "    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the size of a matrix\");\n", ""),
    ("M02", "bug", MA, "    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the size of a string\");\n", ""),
    ("M02", "quiet", MA, "    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the size of a string\");\n", "    SM_ASSERT_TRUE(MatrixArchiveException, !fin.bad() || fin.eof(), \"Error while reading the size of a string\");\n    if(fin.eof()) return;\n"),
    ("M02", "quiet", MA, "    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the name of a block\");\n", ""),
    ("M02", "quiet", MA, "SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the end of a block\");", "if(!fin) SM_THROW(MatrixArchiveException, \"Error while reading the end of a block\");"),
    ("M02", "quiet", MA, "SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the end of a block\");", "SM_ASSERT_FALSE(MatrixArchiveException, fin.fail(), \"Error while reading the end of a block\");"),
    ("M02", "quiet", MA, "SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the size of a string\");", "SM_ASSERT_TRUE(MatrixArchiveException, fin.gcount() == 4, \"Error while reading the size of a string\");"),
    ("M02", "bug", MA, "    fout.close();\n    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing file \" << amaFilePath.string());\n", ""),
    ("M02", "bug", MA, "    fout.close();\n    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing file \" << amaFilePath.string());\n", "    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing file \" << amaFilePath.string());\n    fout.close();\n"),
    ("M02", "bug", MA, "    fout.close();\n    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing file \" << amaFilePath.string());\n", "    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing file \" << amaFilePath.string());\n"),
    ("M02", "bug", MA, "    fout.close();\n", "    fout.clear();\n    fout.close();\n"),
    ("M02", "quiet", MA, "    fout.close();\n", "    fout.flush();\n"),
    ("M02", "quiet", MA, "    std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary);\n    SM_ASSERT_TRUE", "    std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary);\n    fout.exceptions(std::ios::failbit | std::ios::badbit);\n    SM_ASSERT_TRUE"),
    ("M02", "quiet", MA, "SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the data of a matrix\");\n  }\n", "}\n"),
    ("M02", "bug", MA, "    // end character\n    fin.read(&end,1);\n    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), \"Error while reading the end of a block\");\n    SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd,", "    end = fin.get();\n    SM_ASSERT_TRUE(MatrixArchiveException, fin.eof() || end == s_magicCharEnd,"),
]
_SA = "sm_matrix_archive/src/MatrixArchive.cpp"
_SS = "\n        SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing string \" << it->first << \" to file.\");\n"
CASES += [("M02", "bug", _SA, _SS, ""),
 ("M02", "bug", _SA, "\n        SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing matrix \" << it->first << \" to file.\");\n", ""),
 ("M02", "quiet", _SA, _SS, "\n        if(!fout) { SM_THROW(MatrixArchiveException, \"Error while writing string \" << it->first << \" to file.\"); }\n"),
 ("M02", "quiet", _SA, [_SS, "    saveStrings(fout, validNames);\n"], ["", "    saveStrings(fout, validNames);\n    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), \"Error while writing strings\");\n"])]
