#define FILES
#include "P07.cpp"
