VS = "sm_value_store/src/ValueStore.cpp"
PF = "sm_value_store/src/PrefixedValueStore.cpp"
VB = "sm_value_store/src/VerboseValueStore.cpp"
PT = "sm_value_store/src/PropertyTreeValueStore.cpp"
H = "sm_value_store/include/sm/value_store/ValueStore.hpp"
CASES = [
 ("V02", "bug", VS, "if(--c){\n     if(vs->hasKey(path))\n       return ((&(*vs))->*Func)(path, boost::optional<V>());", "if(--c){\n     if(vs->hasKey(path))\n       return ((&(*vs))->*Func)(path, def);"),
 ("V02", "bug", VS, "return ((&(*vs))->*Func)(path, def);", "return ((&(*vs))->*Func)(path, boost::optional<V>());"),
 ("V02", "bug", VS, "if(v && !v->isChildSupported()) return false;", "if(v && v->isChildSupported()) return true;"),
 ("V02", "bug", VS, "    for(auto vsp : childLayers){\n      layeredVS->add(vsp.getValueStoreSharedPtr());", "    for(auto it = childLayers.rbegin(); it != childLayers.rend(); ++it){\n      layeredVS->add(it->getValueStoreSharedPtr());"),
 ("V02", "quiet", VS, " int c = valuestores.size();\n for(auto & vs : valuestores) {\n   if(--c){\n     if(vs->hasKey(path))\n       return ((&(*vs))->*Func)(path, boost::optional<V>());\n   }\n   else{\n     return ((&(*vs))->*Func)(path, def);\n   }\n }",
  " for(size_t i = 0; i < valuestores.size(); ++i) {\n   const ValueStore & s = *valuestores[i];\n   const bool last = i + 1 == valuestores.size();\n   if(last) return (s.*Func)(path, def);\n   if(s.hasKey(path)) return (s.*Func)(path, boost::none);\n }"),
 ("V02", "quiet", VS, "  for(auto & v: valuestores){\n    if(! v) continue;\n    if(v->hasKey(path)){\n      return true;\n    }\n  }\n  return false;", "  bool found = false;\n  for(auto & v: valuestores){\n    if(v && v->hasKey(path)){\n      found = true; break;\n    }\n  }\n  return found;"),
 ("V02", "quiet", VS, "  for(auto & v: valuestores){\n    if(! v) continue;\n    if(v->hasKey(path)){\n      return true;\n    }\n  }\n  return false;", "  auto it = valuestores.begin();\n  while(it != valuestores.end()){\n    if(*it && (*it)->hasKey(path)){\n      return true;\n    }\n    ++it;\n  }\n  return false;"),
 ("V04", "bug", VS, "i++; // skip deprecation message in the input", ""),
 ("V04", "bug", VS, "alertHandler(pp, message);", "alertHandler(p, message);"),
 ("V04", "bug", VS, "return pathsAndDeprecationWarnings.front();", "return pathsAndDeprecationWarnings.back();"),
 ("V04", "bug", VS, "if (hasKey(pp)) {", "if (hasKey(pp) && alertHandler) {"),
 ("V04", "quiet", VS, "    } else if (hasKey(p)) {\n      return p;\n    }", "      continue;\n    }\n    const bool here = hasKey(p);\n    if(here) return p;"),
 ("V04", "quiet", VS, "if(!p.empty() && p[0] == '!') {\n      std::string pp = p.substr(1);", "if(p.size() > 0 && p.compare(0, 1, \"!\") == 0) {\n      const std::string pp(p.begin() + 1, p.end());"),
 ("V01", "bug", PF, "return vs_->getInt(applyPrefix(path), def);", "return vs_->getInt(applyPrefix(path), boost::optional<int>());"),
 ("V01", "bug", PF, "return path.substr(prefix_.size());", "return path.substr(prefix_.size() - 1);"),
 ("V01", "bug", PF, "return prefix_ + path;", "return path.empty() ? prefix_ : prefix_ + path + path.substr(path.size());\n/**/"),
 ("V01", "quiet", PF, "return prefix_ + path;", "{ std::string r(prefix_); r += path; return r; }"),
 ("V01", "quiet", PF, "return vs_->getInt(applyPrefix(path), def);", "const std::string full = applyPrefix(path); ValueStore & vs = *vs_; return vs.getInt(full, def);"),
 ("V01", "quiet", PF, "if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {", "if (path.compare(0, prefix_.size(), prefix_) == 0) {"),
 ("V01", "quiet", PF, "if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {", "if (path.find(prefix_) == 0) {"),
]
