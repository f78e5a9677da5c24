#define NETWORK 1
#define SCHAR int8_t
#define NAME(a, b) a##Network##b
#include "serial.hpp"
