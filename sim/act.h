#ifndef ACT_H
#define ACT_H
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "sim.h"
#endif
