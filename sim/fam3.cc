// see twin.h
#include "twin.h"
namespace sim { void twinsB(std::vector<FamOps>& v) { app::twins(v); } }
