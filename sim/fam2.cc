// see twin.h
#include "twin.h"
namespace sim { void twinsA(std::vector<FamOps>& v) { app::twins(v); } }
