"""M04: what the archive hands out."""
MA = "sm_matrix_archive/src/MatrixArchive.cpp"
MH = "sm_matrix_archive/include/sm/MatrixArchive.hpp"
FOUND = '''    matrix_map_t::const_iterator it = m_values.find(matrixName);
    if(it == m_values.end())
    {
      SM_THROW(MatrixArchiveException,"There is no matrix named \\"" << matrixName << "\\" in the archive");
    }

    return it->second;
'''
CASES = [
 ("M04", "bug", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.cols(), 1, \"The stored value is not a scalar\");\n", ""),
 ("M04", "bug", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.rows(), 1, \"The stored value is not a scalar\");\n", ""),
 ("M04", "bug", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.cols(), 1, \"The stored value is not a vector\");\n", ""),
 ("M04", "bug", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.cols(), 1, \"The stored value is not a vector\");\n", "    SM_ASSERT_EQ(MatrixArchiveException, M.rows(), 1, \"\");\n"),
 ("M04", "bug", MA, "    M.resize(1,1);\n    M(0,0) = scalar;", "    if(M.size() == 0) M.resize(1,1);\n    M(0,0) = scalar;"),
 ("M04", "bug", MA, "    M(0,0) = scalar;\n    m_strings", "    M(0,0) = (float)scalar;\n    m_strings"),
 ("M04", "bug", MA, "    val.resize(rows, cols);", "    val.resize(cols, rows);"),
 ("M04", "bug", MA, "    val.resize(rows, cols);", "    if(val.rows() < rows) val.resize(rows, cols);"),
 ("M04", "bug", MA, "    if(!overwriteExisting){", "    if(overwriteExisting){"),
 ("M04", "bug", MA, "return sizeStrings() + sizeMatrices();", "return sizeMatrices();"),
 ("M04", "bug", MA, "    return m_strings.size();", "    return m_values.size();"),
 ("M04", "bug", MA, "    return m_values.end();", "    return m_values.begin();"),
 ("M04", "bug", MA, "    m_strings.erase(entryName);\n    m_values.erase(entryName);", "    m_strings.clear();\n    m_values.erase(entryName);"),
 ("M04", "bug", MA, "    m_strings.erase(scalarName);", "    m_strings.clear();"),
 ("M04", "bug", MA, "    if(m_values.count(stringName) > 0){\n      m_values.erase(stringName);", "    if(m_values.count(stringName) > 0){\n      m_values.clear();"),
 ("M04", "bug", MA, "    m_strings[stringName] = value;", "    m_strings.insert(std::make_pair(stringName, value));"),
 ("M04", "bug", MH, "      m_values[matrixName] = matrix;", "      if(m_values.count(matrixName) == 0) m_values[matrixName] = matrix;"),
 ("M04", "bug", MH, "      SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, \"The input must be a column vector\");\n", ""),
 ("M04", "bug", MA, "outMatrix = getMatrix(matrixName);", "if(m_values.count(matrixName)) outMatrix = getMatrix(matrixName);"),
 ("M04", "bug", MA, "    return m_values.find(name);", "    return m_values.lower_bound(name);"),
 ("M04", "quiet", MA, FOUND, '''    if(m_values.count(matrixName) == 0)
    {
      SM_THROW(MatrixArchiveException,"There is no matrix named \\"" << matrixName << "\\" in the archive");
    }
    return m_values.at(matrixName);
'''),
 ("M04", "quiet", MA, FOUND, '''    const matrix_map_t::const_iterator found = find(matrixName);
    if(found != end())
      return found->second;
    SM_THROW(MatrixArchiveException,"There is no matrix named \\"" << matrixName << "\\" in the archive");
'''),
 ("M04", "quiet", MA, "return sizeStrings() + sizeMatrices();", "return m_values.size() + m_strings.size();"),
 ("M04", "quiet", MA, "    if(m_values.count(stringName) > 0){\n      m_values.erase(stringName);\n    }\n", "    m_values.erase(stringName);\n"),
 ("M04", "quiet", MA, "    if(m_values.count(stringName) > 0){\n      m_values.erase(stringName);\n    }\n", "    matrix_map_t::iterator it = m_values.find(stringName);\n    if(it != m_values.end())\n      m_values.erase(it);\n"),
 ("M04", "quiet", MA, "    Eigen::MatrixXd & M = m_values[scalarName];\n    M.resize(1,1);\n    M(0,0) = scalar;", "    m_values[scalarName] = Eigen::MatrixXd::Constant(1, 1, scalar);"),
 ("M04", "quiet", MA, "    Eigen::MatrixXd & M = m_values[scalarName];\n    M.resize(1,1);\n    M(0,0) = scalar;", "    Eigen::MatrixXd M(1,1);\n    M(0,0) = scalar;\n    m_values[scalarName] = M;"),
 ("M04", "quiet", MA, "    Eigen::MatrixXd & M = m_values[scalarName];\n    M.resize(1,1);\n    M(0,0) = scalar;", "    Eigen::MatrixXd & M = m_values[scalarName];\n    M.setConstant(1,1,scalar);"),
 ("M04", "quiet", MA, "    Eigen::MatrixXd & val = m_values[matrixName];\n    val.resize(rows, cols);\n    m_strings.erase(matrixName);\n    return val;", "    m_strings.erase(matrixName);\n    Eigen::MatrixXd & val = m_values[matrixName];\n    val.resize(rows, cols);\n    return val;"),
 ("M04", "quiet", MA, "    Eigen::MatrixXd & val = m_values[matrixName];\n    val.resize(rows, cols);", "    Eigen::MatrixXd & val = m_values[matrixName];\n    val = Eigen::MatrixXd(rows, cols);"),
 ("M04", "quiet", MA, "    return M(0,0);", "    return M.coeff(0,0);"),
 ("M04", "quiet", MA, "    return M(0,0);", "    return *M.data();"),
 ("M04", "quiet", MA, "    outVector = M.col(0);", "    outVector = M;"),
 ("M04", "quiet", MH, "      m_values[matrixName] = matrix;", "      m_values[matrixName] = matrix.derived();"),
 ("M04", "quiet", MH, "      m_values[matrixName] = matrix;", "      m_values[matrixName] = matrix.eval();"),
 ("M04", "quiet", MH, "      m_values[matrixName] = matrix;", "      Eigen::MatrixXd & stored = m_values[matrixName];\n      stored = matrix;"),
 ("M04", "quiet", MA, "      SM_THROW(MatrixArchiveException, \"There is no scalar named \\\"\" << scalarName << \"\\\" in the archive\");", "      SM_THROW(MatrixArchiveException, \"No scalar \" << scalarName);"),
 ("M04", "quiet", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.rows(), 1, \"The stored value is not a scalar\");\n    SM_ASSERT_EQ(MatrixArchiveException, M.cols(), 1, \"The stored value is not a scalar\");", "    SM_ASSERT_TRUE(MatrixArchiveException, M.rows() == 1 && M.cols() == 1, \"The stored value is not a scalar\");"),
 ("M04", "quiet", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.rows(), 1, \"The stored value is not a scalar\");\n    SM_ASSERT_EQ(MatrixArchiveException, M.cols(), 1, \"The stored value is not a scalar\");", "    if(M.rows() != 1 || M.cols() != 1) SM_THROW(MatrixArchiveException, \"The stored value is not a scalar\");"),
 ("M04", "quiet", MA, "    SM_ASSERT_EQ(MatrixArchiveException, M.rows(), 1, \"The stored value is not a scalar\");\n    SM_ASSERT_EQ(MatrixArchiveException, M.cols(), 1, \"The stored value is not a scalar\");", "    SM_ASSERT_EQ(MatrixArchiveException, M.size(), 1, \"The stored value is not a scalar\");"),
]
