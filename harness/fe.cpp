#include "feops.hpp"
DRIVER_MAIN(drv::feOps, [] { drv::models.clear(); })
