 #ifndef JLM_TOOLING_COMMANDPATHS_HPP
 #define JLM_TOOLING_COMMANDPATHS_HPP
 
 #include <jlm/util/file.hpp>
 
 namespace jlm::tooling {
 
 static inline jlm::util::FilePath clangpath("/usr/lib/llvm-18/bin/clang");
 static inline jlm::util::FilePath llcpath("/usr/lib/llvm-18/bin/llc");
 
 }
 
 #endif 