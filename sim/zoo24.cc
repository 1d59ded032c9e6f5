#include "zoo23.h"
namespace app { void others1(std::vector<Make>& v) { others<1>(v); } }
