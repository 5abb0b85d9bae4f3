#include "stack_trace.hpp"
void uses() { Helper::stack_trace(); }
