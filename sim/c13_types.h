// Types that only the memory footprint supports: not serializable.
#pragma once
#include "core.h"
namespace sim {
constexpr int OPAQUE = 4;
struct OpaqueOps { size_t (*footprint)(u64 v); };
OpaqueOps const* opaque();
}
