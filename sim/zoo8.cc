#include "users.h"
ZOO(120, TF_POLY | TF_PROBE, std::unique_ptr<app::Shape>)
ZOO(121, TF_POLY | TF_PROBE, std::vector<std::unique_ptr<app::Shape>>)
ZOO(122, TF_POLY | TF_PROBE, std::vector<std::unique_ptr<app::Node>>)
ZOO(123, TF_POLY | TF_PROBE, app::Scene)
ZOO(124, TF_POLY | TF_PROBE, app::RawPoly)
ZOO(125, TF_POLY | TF_PROBE, std::vector<app::RawPoly>)
