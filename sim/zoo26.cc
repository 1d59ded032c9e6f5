#include "zoo23.h"
namespace app { void others3(std::vector<Make>& v) { others<3>(v); } }
