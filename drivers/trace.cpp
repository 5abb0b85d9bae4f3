#include <iostream>
#include "../src/stack_trace.cpp"
#include "spec.hpp"
using spec::claim; using spec::lines; using spec::frames;

#ifdef ENABLE_STACK_TRACE
void spec_C24_enabled() { spec::trace(std::cerr); Helper::stack_trace(); claim(frames()>=0,"the stack is captured"); claim(lines()==frames(),"one line for each captured frame"); claim(spec::trace_intact(),"the lines are complete and the error stream is left as it was"); }
#else
void spec_C24_disabled() { spec::trace(std::cerr); Helper::stack_trace(); claim(frames()==-1,"nothing is captured"); claim(lines()==0 && spec::trace_intact(),"nothing is printed"); }
#endif
