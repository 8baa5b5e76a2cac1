R = "sm_random/src/random.cpp"
NR = "double randn()\n{\n  return Random::instance().normal();"
LU = "return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;"
LI = "return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);"
CASES = [
 ("R01", "bug", R, "    _normal.distribution().reset();\n", ""),
 ("R01", "bug", R, "boost::variate_generator<base_generator_type&, boost::normal_distribution<> > _normal;", "boost::variate_generator<base_generator_type, boost::normal_distribution<> > _normal;"),
 ("R01", "bug", R, ["boost::variate_generator<base_generator_type&, boost::normal_distribution<> > _normal;", "    _normal.engine().seed(s);\n"], ["boost::variate_generator<base_generator_type, boost::normal_distribution<> > _normal;", ""]),
 ("R01", "bug", R, "    _normal.engine().seed(s);\n    _normal.distribution().reset();\n    _uniform.engine().seed(s);\n", "    _generator.seed();\n    _normal.distribution().reset();\n"),
 ("R01", "quiet", R, "    _normal.engine().seed(s);\n", "    if(s) _normal.engine().seed(s);\n") ,
 ("R01", "bug", R, "_normal.engine().seed(s);\n    _normal.distribution().reset();\n    _uniform.engine().seed(s);", "if(s) { _normal.engine().seed(s);\n    _normal.distribution().reset();\n    _uniform.engine().seed(s); }"),
 ("R01", "quiet", R, "_uniform.engine().seed(s);\n    _uniform.distribution().reset();", "_uniform.engine().seed(s);\n    _normal();\n    _uniform.distribution().reset();"),
 ("R01", "bug", R, "static Random random;", "static thread_local Random random;"),
 ("R01", "bug", R, NR, "double randn()\n{\n  static boost::mt19937 g; static boost::normal_distribution<> d; static boost::variate_generator<boost::mt19937&, boost::normal_distribution<> > n(g, d); return n();"),
 ("R01", "bug", R, NR, "double randn()\n{\n  Random r; return r.normal();"),
 ("R01", "bug", R, "_uni_dist(0.0,1.0)", "_uni_dist(-1.0,1.0)"),
 ("R01", "bug", R, "_normal_dist(),", "_normal_dist(0.0, 2.0),"),
 ("R01", "bug", R, LU, "return Random::instance().uniform() * (upperBoundExclusive + lowerBoundInclusive) + lowerBoundInclusive;"),
 ("R01", "bug", R, LU, "return Random::instance().uniform() * (lowerBoundInclusive - upperBoundExclusive) + upperBoundExclusive;"),
 ("R01", "bug", R, LI, "return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;"),
 ("R01", "bug", R, LI, "return (int)(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive);"),
 ("R01", "bug", R, LI, "return (int)(ceil(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);"),
 ("R01", "bug", R, LI, "return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive + 1)) + lowerBoundInclusive);"),
 ("R01", "bug", R, LI, "return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive) + 0.5) + lowerBoundInclusive);"),
 ("R01", "bug", R, "	return _uniform();", "	double r = _uniform(); return r < 0.5 ? r : _uniform();"),
 ("R01", "bug", R, "	return _normal();", "	double r = _normal(); if(r > 10) return -r; return r;"),
 # holds
 ("R01", "quiet", R, "    _normal.engine().seed(s);\n    _normal.distribution().reset();\n    _uniform.engine().seed(s);\n    _uniform.distribution().reset();\n", "    _generator.seed(s);\n    _normal.distribution().reset();\n"),
 ("R01", "quiet", R, "    _normal.engine().seed(s);\n", ""),
 ("R01", "quiet", R, "    _uniform.engine().seed(s);\n    _uniform.distribution().reset();\n", ""),
 ("R01", "quiet", R, "	static Random random;\n	return random;", "	static Random * random = new Random;\n	return *random;"),
 ("R01", "quiet", R, "	static Random random;\n	return random;", "	static Random & random = *new Random;\n	return random;"),
 ("R01", "quiet", R, LU, "const double range = upperBoundExclusive - lowerBoundInclusive;\n const double u = uniform();\n return lowerBoundInclusive + range * u;"),
 ("R01", "quiet", R, LI, "const boost::int64_t range = (boost::int64_t)upperBoundExclusive - lowerBoundInclusive;\n return (int)((boost::int64_t)floor(rand() * range) + lowerBoundInclusive);"),
 ("R01", "quiet", R, LI, "const double width = (double)upperBoundExclusive - lowerBoundInclusive;\n const double offset = std::floor(uniform() * width);\n return static_cast<int>(lowerBoundInclusive + offset);"),
 ("R01", "quiet", R, NR, "double randn()\n{\n  return normal();"),
 ("R01", "quiet", R, "	return _uniform();", "	const double r = _uniform(); return r;"),
 ("R01", "quiet", R, ["double normal()\n{", NR], ["namespace { Random & source() { return Random::instance(); } }\ndouble normal()\n{", "double randn()\n{\n  return source().normal();"]),
]
