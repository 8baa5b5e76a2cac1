A = "sm_property_tree/src/PropertyTree.cpp"
B = "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"
BH = "sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp"
T = "sm_property_tree/src/BoostPropertyTree.cpp"
L = "sm_property_tree/src/BoostPropertyTreeLoader.cpp"
SR = "sm_common/include/sm/string_routines.hpp"
NUL = '      SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");\n'
CASES = [
 ("P01", "bug", A, "return boost::const_pointer_cast<const PropertyTreeImplementation>(_imp)->getInt(", "return _imp->getInt("),
 ("P01", "bug", BH, "	set(key,defaultValue);\n", ""),
 ("P01", "bug", B, "double BoostPropertyTreeImplementation::getDouble(const std::string & key, double defaultValue) const\n  {\n    return get<double>(key,defaultValue);", "double BoostPropertyTreeImplementation::getDouble(const std::string & key, double defaultValue) const\n  {\n    return const_cast<BoostPropertyTreeImplementation*>(this)->get<double>(key,defaultValue);"),
 ("P02", "bug", A, "if(childNamespace.size() > 0 && childNamespace[0] == '/')", "if(childNamespace.size() > 1 && childNamespace[0] == '/')"),
 ("P02", "bug", A, "_imp->setInt(buildQualifiedKeyName(key), value)", "_imp->setDouble(buildQualifiedKeyName(key), value)"),
 ("P02", "bug", A, "_imp->getBool(buildQualifiedKeyName(key), defaultValue)", "_imp->getBool(key, defaultValue)"),
 ("P02", "bug", SR, "return s + \"/\";", "return s.size() > 40 ? s : s + \"/\";"),
 ("P02", "quiet", A, "std::string qualifiedKeyName = !key.empty() && key[0] == '/' ? key : _namespace + key;", "std::string qualifiedKeyName;\n    if(key.empty() || key[0] != '/') { qualifiedKeyName += _namespace; }\n    qualifiedKeyName += key;"),
 ("P02", "quiet", A, "      qualifiedKeyName.resize(qualifiedKeyName.size() - 1);", "      qualifiedKeyName = qualifiedKeyName.substr(0, qualifiedKeyName.size() - 1);"),
 ("P02", "quiet", A, "    for (auto & kptp : children) {\n      cchildren.push_back(ConstKeyPropertyTreePair{kptp.key, kptp.pt});\n    }", "    for (size_t i = 0; i < children.size(); ++i) {\n      cchildren.push_back(ConstKeyPropertyTreePair{children[i].key, children[i].pt});\n    }"),
 ("P03", "bug", A, NUL + "    return _imp->getInt(buildQualifiedKeyName(key));", "    return _imp->getInt(buildQualifiedKeyName(key));"),
 ("P03", "bug", A, NUL + "    return _imp->getInt(buildQualifiedKeyName(key));", '      SM_ASSERT_TRUE_DBG(Exception, _imp || key.empty(), "The implementation is NULL");\n    return _imp->getInt(buildQualifiedKeyName(key));'),
 ("P03", "quiet", A, NUL + "    return _imp->getInt(buildQualifiedKeyName(key));", '    const std::string k = buildQualifiedKeyName(key);\n    if(!_imp) { SM_THROW(Exception, "none"); }\n    return _imp->getInt(k);'),
 ("P04", "bug", T, "      case INI:\n        saveIni(fileName);", "      case INI:\n        saveInfo(fileName);"),
 ("P04", "bug", T, 'extension == "info"', 'extension == "inf"'),
 ("P04", "bug", B, "options |= boost::property_tree::xml_parser::no_comments", "options = boost::property_tree::xml_parser::no_comments"),
 ("P04", "quiet", T, "    switch(getFileFormatAndThrowIfUnknown(fileName)){\n      case XML:\n        loadXml(fileName);\n        break;", "    const FileFormat ff = getFileFormatAndThrowIfUnknown(fileName);\n    if(ff == XML) { loadXml(fileName); return; }\n    switch(ff){\n      case XML:\n        break;"),
 ("P05", "bug", L, "    updateOrSet(pt, configFileFullPath, updateOnly);\n", "", ),
 ("P05", "bug", L, "pt.update(newPt, !updateOnly);", "pt.update(newPt, updateOnly);"),
 ("P05", "bug", L, "readFiles(splitCommaSeparatedList(parents), ignore, configFileFullPath);", "readFiles(splitCommaSeparatedList(parents), ignore, relativeToFile);"),
 ("P05", "bug", L, "      ignore.insert(configFile);\n\n      loadConfigFileWithParents(configFile, ignore, relativeToFile);", "      loadConfigFileWithParents(configFile, ignore, relativeToFile);\n      ignore.insert(configFile);\n"),
 ("P05", "bug", L, "    for(auto configFile : configFiles) {", "    for(size_t k = configFiles.size(); k-- > 0; ) {\n      auto configFile = configFiles[k];"),
 ("P05", "quiet", L, "    for(auto configFile : configFiles) {", "    for(size_t k = 0; k < configFiles.size(); k++) {\n      const std::string & configFile = configFiles[k];"),
 ("P05", "quiet", L, "      if(configFile.empty()) continue;\n      if(ignore.count(configFile)) continue;\n      ignore.insert(configFile);\n\n      loadConfigFileWithParents(configFile, ignore, relativeToFile);", "      if(!configFile.empty() && ignore.find(configFile) == ignore.end()) {\n        ignore.insert(configFile);\n        loadConfigFileWithParents(configFile, ignore, relativeToFile);\n      }"),
]
