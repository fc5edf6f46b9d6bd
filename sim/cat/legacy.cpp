#define IFACE 3
#include "c_body.hpp"
