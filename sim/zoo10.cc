#include "users.h"
// classes with every kind of construction inside every kind of container
ZOO(140, 0, std::vector<app::NonIntRecon>)
ZOO(141, 0, std::list<app::Recon>)
ZOO(142, 0, std::map<int, app::Blob>)
ZOO(143, 0, std::map<int, std::unique_ptr<std::string>>)
ZOO(144, 0, std::unique_ptr<app::Tagged>)
ZOO(145, TF_PROBE, std::optional<app::ProbeTag>)
ZOO(146, 0, std::queue<app::Tagged>)
ZOO(147, 0, std::variant<int, app::Tagged, app::Recon>)
ZOO(148, TF_PROBE, std::unordered_multimap<int, app::ProbeKey>)
