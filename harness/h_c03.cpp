#include "h_util.cpp"
#include "h_config.cpp"
