#include "lib.h"
void lib_reset_config() {
    DelynoiConfig* c = DelynoiConfig::instance();
    c->setDiscretizationGrade(12); c->setTolerance(0.00001); c->setScale(100000); c->setPrecision(6);
}
