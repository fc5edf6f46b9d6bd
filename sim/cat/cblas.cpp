#define IFACE 2
#include "c_body.hpp"
