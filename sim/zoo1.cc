#include "users.h"
// scalars, strings, user classes
ZOO(1, TF_SCALAR, int)
ZOO(2, TF_SCALAR, bool)
ZOO(3, TF_SCALAR, double)
ZOO(4, TF_SCALAR, app::Color)
ZOO(5, TF_SCALAR, app::Plain)
ZOO(6, TF_SCALAR, app::Wide)
ZOO(7, TF_SCALAR, std::chrono::nanoseconds)
ZOO(8, 0, std::string)
ZOO(9, 0, app::Intr)
ZOO(10, 0, app::NonIntr)
ZOO(11, TF_SCALAR, app::Blob)
ZOO(12, TF_NODEFAULT, app::Tagged)
ZOO(13, TF_NODEFAULT, app::Recon)
ZOO(14, TF_NODEFAULT, app::NonIntRecon)
ZOO(15, TF_NODEFAULT, app::SpecRecon)
