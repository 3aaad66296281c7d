#include "docopt/docopt.h"
