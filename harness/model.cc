#include "model.h"
