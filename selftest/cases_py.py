"""Y01: the Python bindings."""
S = "sm_python/src/"
TR, PT, MA, VS, QA, LG, TM = S + "exportTransformation.cpp", S + "exportPropertyTree.cpp", S + "exportMatrixArchive.cpp", S + "exportValueStoreRef.cpp", S + "export_quaternion_algebra.cpp", S + "Logging.cpp", S + "Timing.cpp"
MO, HP = S + "module.cpp", S + "exportHomogeneousPoint.cpp"
PY = "sm_python/python/sm/__init__.py"
GI = '+[](ValueStoreRef * vs, const std::string & path, int defaultValue){return vs->getInt(path, defaultValue).get();}'
CASES = [
 # a name calls another function
 ("Y01", "bug", QA, 'def("qplus", &qplus)', 'def("qplus", &qoplus)'),
 ("Y01", "bug", QA, 'def("quatS",&quatS)', 'def("quatS",&quatInvS)'),
 ("Y01", "bug", QA, 'def("qlog", &qlog)', 'def("qlog", &qexp)'),
 ("Y01", "bug", MA, '.def("save",saveArchive)', '.def("save",appendArchive)'),
 ("Y01", "bug", MA, 'ma->getVector(vectorName,V);\n  return V;', 'Eigen::MatrixXd M;\n  ma->getMatrix(vectorName,M);\n  V = M;\n  return V;'),
 ("Y01", "bug", PT, '.def("loadIni", &BoostPropertyTree::loadIniStr)', '.def("loadIni", &BoostPropertyTree::loadInfoStr)'),
 ("Y01", "bug", PT, '.def("setDouble", &PropertyTree::setDouble)', '.def("setDouble", &PropertyTree::setInt)'),
 ("Y01", "bug", TR, '.def("C", &Transformation::C)', '.def("C", &Transformation::T)'),
 ("Y01", "bug", LG, 'def("enableNamedLoggingStream", &enableNamedStream)', 'def("enableNamedLoggingStream", &disableNamedStream)'),
 ("Y01", "bug", VS, '{vs->getInt(path).update(newVal);}', '{vs->getBool(path).update(newVal);}'),
 # arguments
 ("Y01", "bug", VS, GI, GI.replace("getInt(path, defaultValue)", "getInt(path)")),
 ("Y01", "bug", PT, "return p->getString(key, defaultValue);", "return p->getString(defaultValue, key);"),
 ("Y01", "bug", PT, "return p->getBool(key, defaultValue);", "return p->getBool(key);"),
 # the wrong object
 ("Y01", "bug", PT, "&ConstPropertyTree::getChild", "&PropertyTree::getChild"),
 # overloads, classes and order
 ("Y01", "bug", TR, "    .def(self * self)\n    .def(self * UncertainTransformation())\n", "    .def(self * UncertainTransformation())\n    .def(self * self)\n"),
 ("Y01", "bug", TR, "    .def(self * Transformation())\n    .def(self * self)\n", "    .def(self * self)\n    .def(self * Transformation())\n"),
 ("Y01", "bug", TR, "    .def(\"inverse\",&UncertainTransformation::inverse)\n", ""),
 ("Y01", "bug", TR, "    .def(\"inverse\",&UncertainTransformation::inverse)\n", "    .def(\"inverse\",&Transformation::inverse)\n"),
 ("Y01", "bug", TR, "    .def_pickle( sm::python::pickle_suite<UncertainTransformation>() )\n", ""),
 ("Y01", "bug", TR, "pickle_suite<UncertainTransformation>()", "pickle_suite<Transformation>()"),
 ("Y01", "bug", MO, "  exportMatrixArchive();\n", ""),
 ("Y01", "bug", TR, 'return_value_policy<copy_const_reference>())\n    .def("T3x4"', 'return_value_policy<reference_existing_object>())\n    .def("T3x4"'),
 ("Y01", "bug", TM, '.value("SORT_BY_MIN", SortType::SORT_BY_MIN)', '.value("SORT_BY_MIN", SortType::SORT_BY_MAX)'),
 ("Y01", "bug", LG, '.value("Trace",levels::Trace)', '.value("Trace",levels::Fine)'),
 # the Python side
 ("Y01", "bug", PY, "    if getLoggingLevel() > level:\n        return\n    callerframerecord = inspect.stack()[stackdepth]\n    frame = callerframerecord[0]\n    info = inspect.getframeinfo(frame)\n    rawLog(", "    if getLoggingLevel() >= level:\n        return\n    callerframerecord = inspect.stack()[stackdepth]\n    frame = callerframerecord[0]\n    info = inspect.getframeinfo(frame)\n    rawLog("),
 ("Y01", "bug", PY, "log(LoggingLevel.Verbose, message", "log(LoggingLevel.FineVerbose, message"),
 ("Y01", "bug", PY, "logNamed(name, LoggingLevel.Warn, message, stackdepth=2)", "logNamed(name, LoggingLevel.Info, message, stackdepth=2)"),
 ("Y01", "bug", PY, "logNamed(name, LoggingLevel.Warn, message, stackdepth=2)", "logNamed(name, LoggingLevel.Warn, message)"),
 ("Y01", "bug", PY, "logNamed(name, LoggingLevel.Warn, message, stackdepth=2)", "log(LoggingLevel.Warn, message, stackdepth=2)"),
 ("Y01", "bug", PY, "logNamed(name, LoggingLevel.Warn, message, stackdepth=2)", "logNamed(message, LoggingLevel.Warn, name, stackdepth=2)"),
 ("Y01", "bug", PY, "info.filename, info.lineno, info.function, message)\n    \ndef logNamed", "info.function, info.lineno, info.filename, message)\n    \ndef logNamed"),
 ("Y01", "bug", PY, '''        elif isinstance(value, bool):
            return "Bool"
        elif isinstance(value, int):
            return "Int"
''', '''        elif isinstance(value, int):
            return "Int"
        elif isinstance(value, bool):
            return "Bool"
'''),
 # rewritten without changing what is exported
 ("Y01", "quiet", QA, 'def("qplus", &qplus)', 'def("qplus", qplus)'),
 ("Y01", "quiet", QA, 'def("qplus", &qplus)', 'def("qplus", +[](const Eigen::Vector4d & a, const Eigen::Vector4d & b) -> Eigen::Vector4d { return qplus(a, b); })'),
 ("Y01", "quiet", QA, '    def("qlog", &qlog);\n    def("qexp", &qexp);\n', '    def("qexp", &qexp);\n    def("qlog", &qlog);\n'),
 ("Y01", "quiet", MA, "double d;\n  ma->getScalar(vectorName,d);\n  return d;", "double value = 0.0;\n  ma->getScalar(vectorName,value);\n  const double result = value;\n  return result;"),
 ("Y01", "quiet", MA, ["std::string getString(const sm::MatrixArchive * ma, std::string const & stringName)", '.def("getString", getString)'], ["std::string stringOf(const sm::MatrixArchive * ma, std::string const & stringName)", '.def("getString", &stringOf)']),
 ("Y01", "quiet", TR, "    .def(self * self)\n    .def(self * UncertainTransformation())\n    .def(self * HomogeneousPoint())\n    .def(self * UncertainHomogeneousPoint())\n", "    .def(self * self)\n    .def(self * HomogeneousPoint())\n    .def(self * UncertainTransformation())\n    .def(self * UncertainHomogeneousPoint())\n"),
 ("Y01", "quiet", TR, ["void exportTransformation()\n{", '  def("interpolateTransformations", &interpolateTransformations);\n  def("slerpTransformations", &slerpTransformations);\n'],
  ['static void exportInterpolation()\n{\n  using namespace sm::kinematics;\n  using namespace boost::python;\n  def("interpolateTransformations", &interpolateTransformations);\n  def("slerpTransformations", &slerpTransformations);\n}\n\nvoid exportTransformation()\n{', "  exportInterpolation();\n"]),
 ("Y01", "quiet", PT, '  class_<ConstPropertyTree>("ConstPropertyTree", init<const ConstPropertyTree &, const std::string &>("ConstPropertyTree(ConstPropertyTree parent, string childNamespace)"))\n      .def(', '  class_<ConstPropertyTree> tree("ConstPropertyTree", init<const ConstPropertyTree &, const std::string &>("ConstPropertyTree(ConstPropertyTree parent, string childNamespace)"));\n  tree.def('),
 ("Y01", "quiet", PT, "return p->getString(key, defaultValue);", "const std::string s = p->getString(key, defaultValue);\n  return s;"),
 ("Y01", "quiet", VS, GI, "+[](ValueStoreRef * vs, const std::string & path, int d) -> int { auto h = vs->getInt(path, d); return h.get(); }"),
 ("Y01", "quiet", MO, "  exportMatrixArchive();\n  exportLogging();\n", "  exportLogging();\n  exportMatrixArchive();\n"),
 ("Y01", "quiet", PY, "    if getLoggingLevel() > level:\n        return\n    callerframerecord = inspect.stack()[stackdepth]\n    frame = callerframerecord[0]\n    info = inspect.getframeinfo(frame)\n    rawLog(", "    if not (level >= getLoggingLevel()):\n        return\n    info = inspect.getframeinfo(inspect.stack()[stackdepth][0])\n    rawLog("),
 ("Y01", "quiet", PY, "    if getLoggingLevel() > level:\n        return\n    callerframerecord = inspect.stack()[stackdepth]\n    frame = callerframerecord[0]\n    info = inspect.getframeinfo(frame)\n    rawLog(level, info.filename, info.lineno, info.function, message)", "    current = getLoggingLevel()\n    if level >= current:\n        info = inspect.getframeinfo(inspect.stack()[stackdepth][0])\n        rawLog(level, info.filename, info.lineno, info.function, message)"),
 ("Y01", "quiet", PY, "logNamed(name, LoggingLevel.Warn, message, stackdepth=2)", "logNamed(name, LoggingLevel.Warn, message, 2)"),
 ("Y01", "quiet", LG, "    smLogNamed(SMCONSOLE_DEFAULT_NAME,level,file,line,function,message);", "    const std::string name(SMCONSOLE_DEFAULT_NAME);\n    smLogNamed(name, level, file, line, function, message);"),
]
