#include "scip/scip_model.h"
