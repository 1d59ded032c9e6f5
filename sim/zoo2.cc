#include "users.h"
// sequences
ZOO(20, 0, std::vector<int>)
ZOO(21, 0, std::vector<bool>)
ZOO(22, 0, std::vector<std::string>)
ZOO(23, 0, std::vector<std::vector<double>>)
ZOO(24, TF_PROBE, std::vector<app::Probe>)
ZOO(25, TF_NODEFAULT, std::vector<app::Tagged>)
ZOO(26, TF_NODEFAULT, std::vector<app::MoveOnlyTag>)
ZOO(27, 0, std::vector<app::MoveOnly>)
ZOO(28, TF_PROBE | TF_NODEFAULT, std::vector<app::ProbeTag>)
ZOO(29, TF_PROBE | TF_NODEFAULT, std::vector<app::ProbeMo>)
ZOO(30, 0, std::vector<app::Color>)
ZOO(31, 0, std::vector<app::Blob>)
