#include "users.h"
ZOO(100, TF_PROBE, app::Probe)
ZOO(101, TF_PROBE | TF_NODEFAULT, app::ProbeTag)
ZOO(102, TF_PROBE | TF_NODEFAULT, app::ProbeMo)
ZOO(103, TF_PROBE | TF_RECURSIVE, app::Tree)
ZOO(104, TF_RECURSIVE, app::Link)
ZOO(105, TF_PROBE, app::Mid)
ZOO(106, TF_PROBE | TF_BIG, app::Big)
ZOO(107, 0, app::RawOwner)
ZOO(108, 0, app::SharedOwner)
ZOO(109, 0, app::MoveOnly)
ZOO(110, TF_NODEFAULT, app::MoveOnlyTag)
ZOO(111, TF_SCALAR, app::Empty0)
ZOO(112, TF_PROBE, std::vector<app::Mid>)
