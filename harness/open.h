// Private members are opened to the contracts with clang's -fno-access-control
// (irvc.py); access control has no effect on the generated code.
#pragma once
#include "vc.h"
