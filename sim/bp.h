// Instruction-level interruption points in the uninstrumented build: int3 breakpoints planted by the simulator.
#pragma once
#include "core.h"
#include "libs.h"
extern std::function<void(Task*)> bp_action;        // runs in a signal handler on the task's stack
void bp_init(Lib*);                                 // makes the code patchable, loads the instruction list
void bp_plant(Lib*);                                // plant one at a tape-chosen instruction
void bp_plant_near(Lib*, uintptr_t pc);             // plant one within the next few instructions of the same function
Lib* bp_lib(); uintptr_t bp_pc();                   // of the breakpoint being handled
void bp_clear();
