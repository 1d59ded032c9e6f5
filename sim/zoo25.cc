#include "zoo23.h"
namespace app { void others2(std::vector<Make>& v) { others<2>(v); } }
