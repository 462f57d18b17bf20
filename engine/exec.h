#pragma once
#include "engine.h"
namespace sx {
extern Module* M; extern const DataLayout* DL;
extern std::unordered_map<const Function*, DFunc*> dfuncs;
extern std::unordered_map<const GlobalValue*, uint64_t> gaddr;
extern std::unordered_map<uint64_t, const Function*> faddr;
extern std::unordered_map<uint64_t, std::string> gname;
[[noreturn]] void fatal(const std::string&);
unsigned typeBits(Type*);
Val undefOf(Type*);
Val constVal(const Constant*);
DFunc* getFunc(const Function*);
int builtinId(const Function*);
}
