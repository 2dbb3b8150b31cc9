// The calculator program with its entry point renamed, to be called from C27.
#define main calculator_main
#include "catima_calculator.cpp"
