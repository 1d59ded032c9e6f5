#include "users.h"
ZOO(60, 0, std::map<std::string, int>)
ZOO(61, 0, std::map<int, std::string, std::greater<int>>)
ZOO(62, 0, std::multimap<sim::u8, std::string>)
ZOO(63, 0, std::set<std::string>)
ZOO(64, 0, std::multiset<sim::u8>)
ZOO(65, TF_PROBE, std::set<app::ProbeKey>)
ZOO(66, TF_PROBE, std::map<app::ProbeKey, app::Probe>)
ZOO(67, 0, std::map<int, std::vector<std::string>>)
ZOO(68, 0, std::map<std::string, std::set<int>>)
ZOO(69, TF_PROBE, std::multimap<int, app::Probe>)
