#include "users.h"
// polymorphic classes held by value
ZOO(130, TF_PROBE, app::Node)
ZOO(131, TF_PROBE, app::Leaf)
ZOO(132, TF_PROBE, std::vector<app::Node>)
ZOO(133, TF_PROBE, std::vector<app::Leaf>)
ZOO(134, TF_PROBE, std::array<app::Node, 3>)
ZOO(135, TF_PROBE, std::list<app::Leaf>)
