F = "sm_boost/include/sm/boost/serialization.hpp"
SAVE = '''            std::ofstream ofs(filename.string().c_str(), std::ios::binary);
            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
            {
                ::boost::archive::binary_oarchive oa(ofs);
                oa << object;
            }
            ofs.flush();
            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
'''
FLUSH = '''            ofs.flush();
            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
'''
LOAD = '''            std::ifstream ifs(filename.string().c_str(), std::ios::binary);
            SM_ASSERT_TRUE(std::runtime_error,ifs.good(), "Unable to open file " << filename << " for reading");
            ::boost::archive::binary_iarchive ia(ifs);
    
            ia >> object;
'''
OPENR = '''SM_ASSERT_TRUE(std::runtime_error,ifs.good(), "Unable to open file " << filename << " for reading");'''
OPENW = '''SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");'''
TAG = '''            if(topLevelXmlTag.size() == 0)
            {
                topLevelXmlTag = "object";
            }
'''
HEAD = "        template<typename T>\n        void save(T & object, ::boost::filesystem::path const & filename)"
CASES = [
 ("S02", "bug", F, FLUSH, ""),
 ("S02", "bug", F, "            ofs.flush();\n", ""),
 ("S02", "bug", F, SAVE, SAVE.replace("            {\n", "").replace("            }\n", "")),
 ("S02", "bug", F, "binary_oarchive oa", "text_oarchive oa"),
 ("S02", "bug", F, "text_iarchive ia", "binary_iarchive ia"),
 ("S02", "bug", F, OPENR, ""),
 ("S02", "bug", F, OPENW, ""),
 ("S02", "bug", F, OPENW, "if(!ofs.good()) return;"),
 ("S02", "bug", F, "oa(ofs)", "oa(ofs, ::boost::archive::no_header)"),
 ("S02", "bug", F, "std::ofstream ofs(filename.string().c_str(), std::ios::binary)", "std::ofstream ofs(filename.string().c_str(), std::ios::binary | std::ios::app)"),
 ("S02", "bug", F, "save_xml(object, \"object\", filename)", "save_xml(object, filename.stem().string(), filename)"),
 ("S02", "quiet", F, "load_xml(object, \"object\", filename)", "load_xml(object, \"Object\", filename)"),
 ("S02", "bug", F, TAG, ""),
 ("S02", "bug", F, LOAD, LOAD.replace("ia >> object;", "T copy(object);\n            ia >> copy;")),
 ("S02", "bug", F, "struct version< CLASS_T<T1,T2> > ", "struct version< CLASS_T<T2,T1> > "),
 ("S02", "bug", F, "enum { NNN = CLASS_T<T1,T2,T3>::CLASS_SERIALIZATION_VERSION };", "enum { NNN = sizeof(CLASS_T<T1,T2,T3>) };"),
 ("S02", "quiet", F, SAVE, SAVE.replace("oa << object", "oa & object").replace("ofs.good()", "ofs.is_open()", 1).replace("ofs.flush()", "ofs.close()")),
 ("S02", "quiet", F, SAVE, SAVE.replace("filename.string().c_str(), std::ios::binary", "filename.c_str(), std::ios::out | std::ios::binary | std::ios::trunc")),
 ("S02", "quiet", F, ["            std::ofstream ofs(filename.string().c_str(), std::ios::binary);", HEAD, FLUSH],
  ["            const std::string name = filename.string();\n            std::ofstream ofs(name.c_str(), std::ios::binary);",
   "        inline void finish(std::ofstream & out, ::boost::filesystem::path const & path)\n        {\n            out.flush();\n            if(!out) { SM_THROW(std::runtime_error, \"Unable to write file \" << path); }\n        }\n\n" + HEAD,
   "            finish(ofs, filename);\n"]),
 ("S02", "quiet", F, [HEAD, SAVE], ["        template<typename A, typename T>\n        void saveAs(T & object, ::boost::filesystem::path const & filename)\n        {\n" + SAVE.replace("::boost::archive::binary_oarchive oa", "A oa") + "        }\n\n" + HEAD,
                                    "            saveAs< ::boost::archive::binary_oarchive>(object, filename);\n"]),
 ("S02", "quiet", F, LOAD, LOAD.replace("std::ifstream ifs(filename.string().c_str(), std::ios::binary);", "std::ifstream ifs;\n            ifs.open(filename.string().c_str(), std::ios::in | std::ios::binary);")),
 ("S02", "quiet", F, TAG, "            topLevelXmlTag = topLevelXmlTag.empty() ? std::string(\"object\") : topLevelXmlTag;\n"),
 ("S02", "quiet", F, "save_xml(object, \"object\", filename)", "save_xml(object, std::string(), filename)"),
]
