#include "users.h"
ZOO(80, 0, std::optional<std::string>)
ZOO(81, TF_PROBE, std::optional<app::Probe>)
ZOO(82, TF_NODEFAULT, std::optional<app::Tagged>)
ZOO(83, 0, std::variant<int, std::string, double>)
ZOO(84, TF_PROBE, std::variant<app::Probe, std::vector<int>, app::ProbeTag>)
ZOO(85, 0, std::tuple<int, std::string, std::vector<int>>)
ZOO(86, TF_PROBE, std::tuple<app::Probe, app::Intr>)
ZOO(87, 0, std::pair<std::string, std::map<int, int>>)
ZOO(88, 0, std::unique_ptr<std::string>)
ZOO(89, TF_PROBE, std::unique_ptr<app::Probe>)
ZOO(90, 0, std::vector<std::unique_ptr<app::Intr>>)
ZOO(91, 0, std::vector<std::optional<std::vector<std::string>>>)
ZOO(92, 0, std::variant<std::unique_ptr<int>, app::Intr>)
