#include "users.h"
ZOO(40, 0, std::list<std::string>)
ZOO(41, TF_PROBE, std::list<app::ProbeTag>)
ZOO(42, TF_PROBE, std::list<app::ProbeMo>)
ZOO(43, 0, std::deque<int>)
ZOO(44, TF_PROBE, std::deque<app::Probe>)
ZOO(45, 0, std::queue<std::string>)
ZOO(46, TF_PROBE, std::queue<app::ProbeTag>)
ZOO(47, 0, std::queue<int>)
ZOO(48, 0, std::array<std::string, 3>)
ZOO(49, TF_PROBE, std::array<app::Probe, 2>)
ZOO(50, 0, std::list<std::map<int, std::string>>)
ZOO(51, 0, std::vector<std::deque<short>>)
