// Loading and saving: each format goes to its own reader and writer.
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeImplementation.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/property_tree/ini_parser.hpp>
#include <boost/property_tree/info_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/make_shared.hpp>
#include <sstream>
using namespace sm;
typedef std::string S;
typedef boost::property_tree::ptree PT;
typedef boost::filesystem::path FP;
namespace pt = boost::property_tree;
typedef boost::shared_ptr<BoostPropertyTreeImplementation> BI;
inline int xmlOptions() { int o = 0; if(BoostPropertyTree::isHumanReadableInputOutput()) o += pt::xml_parser::trim_whitespace; if(BoostPropertyTree::isIgnoreComments()) o += pt::xml_parser::no_comments; return o; }
inline void writeXml(const S & f, const PT & p) {
  if(BoostPropertyTree::isHumanReadableInputOutput()) pt::write_xml(f, p, std::locale(), pt::xml_writer_make_settings<PT::key_type>('\t', 1));
  else pt::write_xml(f, p);
}
inline BoostPropertyTree tree(const PT & p) { return BoostPropertyTree(p, ""); }

#define LOAD(N, EXT, READ, WRITE) \
  void lhs_load##N(const FP & f) { BoostPropertyTree t; t.load##N(f); } \
  void rhs_load##N(const FP & f) { PT t; READ; } \
  void lhs_save##N(const PT & p, const FP & f) { const BoostPropertyTree b(p); b.save##N(f); } \
  void rhs_save##N(const PT & p, const FP & f) { const PT t(p); WRITE; }
#define READXML pt::read_xml(f.string(), t, xmlOptions())
#define READINI pt::read_ini(f.string(), t)
#define READINFO pt::read_info(f.string(), t)
#define READJSON pt::read_json(f.string(), t)
#define WRITEXML writeXml(f.string(), t)
#define WRITEINI pt::write_ini(f.string(), t)
#define WRITEINFO pt::write_info(f.string(), t)
#define WRITEJSON pt::write_json(f.string(), t)
LOAD(Xml, "xml", READXML, WRITEXML) LOAD(Ini, "ini", READINI, WRITEINI) LOAD(Info, "info", READINFO, WRITEINFO) LOAD(Json, "json", READJSON, WRITEJSON)
void lhs_loadXmlString(const S & s) { BoostPropertyTree t; t.loadXmlFromString(s); }
void rhs_loadXmlString(const S & s) { PT t; std::istringstream in(s); pt::read_xml(in, t, xmlOptions()); }
inline bool is(const FP & f, const char * e) { return f.extension().string() == e; }
void lhs_load(const FP & f) { BoostPropertyTree b; b.load(f); }
void rhs_load(const FP & f) { PT t; if(is(f, ".xml")) READXML; else if(is(f, ".ini")) READINI; else if(is(f, ".info")) READINFO; else if(is(f, ".json")) READJSON; else throw PropertyTree::InvalidFormatException(""); }
void lhs_save(const PT & p, const FP & f) { const BoostPropertyTree b(p); b.save(f); }
void rhs_save(const PT & p, const FP & f) { const PT t(p); if(is(f, ".xml")) WRITEXML; else if(is(f, ".ini")) WRITEINI; else if(is(f, ".info")) WRITEINFO; else if(is(f, ".json")) WRITEJSON; else throw PropertyTree::InvalidFormatException(""); }
