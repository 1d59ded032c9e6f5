#include "users.h"
namespace {
ZOO(170, 0, std::map<std::string, std::variant<int, std::string>>)
ZOO(171, TF_PROBE, std::vector<std::map<std::string, std::optional<std::vector<app::Probe>>>>)
ZOO(172, TF_PROBE, std::pair<std::unique_ptr<app::Probe>, std::optional<app::ProbeTag>>)
ZOO(173, 0, std::vector<std::variant<sim::u8, app::Color>>)
ZOO(174, 0, std::vector<std::tuple<int, std::string>>)
ZOO(175, 0, std::array<std::array<std::string, 2>, 2>)
ZOO(176, 0, std::list<std::vector<bool>>)
ZOO(177, 0, std::map<int, std::map<int, std::map<int, int>>>)
ZOO(178, TF_PROBE | TF_RECURSIVE, std::unordered_map<int, app::Tree>)
ZOO(179, TF_RECURSIVE, std::vector<app::Link>)
}
