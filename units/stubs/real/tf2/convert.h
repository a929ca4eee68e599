#include "../../algebra/tf2/convert.h"
