#include "../subscriber.h"
