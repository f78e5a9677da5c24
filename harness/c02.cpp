#define NETWORK 0
#define SCHAR char
#define NAME(a, b) a##b
#include "serial.hpp"
