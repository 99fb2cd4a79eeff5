// Interface of the controlled scheduler (shim/mcsched.cpp).
#pragma once
#include <stdint.h>
namespace sch {
void beginProgram(int preemptionBound, bool onlyShared);        // a new program: forget all schedules
bool execute(int n, void (**f)(void*), void** a);               // one execution under the next schedule; false: error()
bool nextSchedule();                                            // more schedules to explore?
bool changed();                                                 // new shared locks became known: start the exploration again
void restart();
const char* error(); const char* trace();
long stepCount();
void point();                                                   // an explicit place where another thread may run
int self();
int pickValue(int n);                                           // an explicit choice of the explored program
}
