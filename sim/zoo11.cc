#include "users.h"
ZOO(150, TF_PROBE | TF_NODEFAULT, std::tuple<app::ProbeTag, app::ProbeKey, app::ProbeMo>)
ZOO(151, 0, std::vector<std::pair<int, std::string>>)
ZOO(152, TF_PROBE, std::unordered_map<int, std::unique_ptr<app::Probe>>)
ZOO(153, TF_PROBE, app::CArr)
ZOO(154, 0, app::DynArr)
ZOO(155, 0, std::vector<sim::u8>)
ZOO(156, 0, std::array<app::MoveOnly, 2>)
ZOO(157, 0, std::vector<std::array<short, 3>>)
ZOO(158, TF_PROBE, std::list<std::unique_ptr<app::Probe>>)
