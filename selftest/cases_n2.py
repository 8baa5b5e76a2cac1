"""N02, T03: the hull of the clock correction."""
F = "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"
H = "sm_timing/include/sm/timing/TimestampCorrector.hpp"
W = """    while(_convexHull.size() >= 2u &&
        isAboveLine(_convexHull[_convexHull.size() - 2u], p, _convexHull[_convexHull.size() - 1u]) ) {
      _convexHull.pop_back();
    }
"""
S = "    _midpointSegmentIndex = lbit - _convexHull.begin() - 1u;"
M = "    _midpointSegmentIndex = 0;\n    while(_midpointSegmentIndex + 2u < _convexHull.size() && _convexHull[_midpointSegmentIndex + %s].x < midpoint) ++_midpointSegmentIndex;"
CASES = [
    ("N02", "bug", F, "if(!isAboveTopLine(p))", "if(isAboveTopLine(p))"),
    ("N02", "bug", F, "isAboveLine(_convexHull[_convexHull.size() - 2u], p, _convexHull", "isAboveLine(_convexHull[_convexHull.size() - 2u], _convexHull.back(), _convexHull"),
    ("N02", "bug", F, "v1.x * v2.y - v1.y * v2.x", "v1.x * v2.y + v1.y * v2.x"),
    ("N02", "bug", F, "determinant >= static", "determinant <= static"),
    ("N02", "bug", F, "    while(_convexHull.size() >= 2u", "    if(_convexHull.size() >= 2u"),
    ("N02", "bug", F, "    while(_convexHull.size() >= 2u", "    while(_convexHull.size() >= 3u"),
    ("N02", "bug", F, "+ remoteTime) / 2.0", "+ remoteTime) / 4.0"),
    ("N02", "bug", F, "_convexHull[0u].x + remoteTime", "_convexHull[1u].x + remoteTime"),
    ("N02", "bug", F, "if(_convexHull.size() >= 3u) {", "if(_convexHull.size() >= 4u) {"),
    ("N02", "bug", F, S, M % "2u"),
    ("T03", "bug", F, S, M % "2u"),
    ("N02", "bug", H, "{ return x < t; }", "{ return y < t; }"),
    ("N02", "quiet", F, "if(!isAboveTopLine(p))", "if(true)"),
    ("N02", "quiet", F, "determinant >= static_cast<T>(0.0)", "!(determinant < 0)"),
    ("N02", "quiet", F, "determinant >= static", "determinant > static"),
    ("N02", "quiet", F, "const Point v2 = p - l1;", "const Point v2 = p - l2;"),
    ("N02", "quiet", F, S, M % "1u"),
    ("T03", "quiet", F, S, M % "1u"),
    ("N02", "quiet", F, "_convexHull.push_back(p);", "_convexHull.emplace_back(remoteTime, localTime);"),
    ("N02", "quiet", F, W, """    for(;;) {
      const std::size_t n = _convexHull.size();
      if(n < 2u || !isAboveLine(_convexHull[n - 2u], p, _convexHull[n - 1u])) break;
      _convexHull.pop_back();
    }
"""),
    ("N02", "quiet", F, W, """    do {
      _convexHull.pop_back();
    } while(_convexHull.size() >= 2u && isAboveLine(_convexHull[_convexHull.size() - 2u], p, _convexHull[_convexHull.size() - 1u]));
"""),
    ("N02", "quiet", F, W, """    std::size_t n = _convexHull.size();
    while(n >= 2u && isAboveLine(_convexHull[n - 2u], p, _convexHull[n - 1u])) --n;
    _convexHull.erase(_convexHull.begin() + n, _convexHull.end());
"""),
]
