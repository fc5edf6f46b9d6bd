#define IFACE 1
#include "c_body.hpp"
