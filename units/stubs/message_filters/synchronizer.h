#include "subscriber.h"
