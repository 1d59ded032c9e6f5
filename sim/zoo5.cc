#include "users.h"
ZOO(70, 0, std::unordered_map<std::string, std::string>)
ZOO(71, 0, std::unordered_multimap<sim::u8, int>)
ZOO(72, 0, std::unordered_set<int>)
ZOO(73, 0, std::unordered_multiset<std::string>)
ZOO(74, TF_PROBE, std::unordered_map<app::ProbeKey, std::string, app::ProbeKeyHash>)
ZOO(75, TF_PROBE, std::unordered_set<app::ProbeKey, app::ProbeKeyHash>)
ZOO(76, 0, std::unordered_map<int, std::list<std::string>>)
