/* The static storage of the units this is included in lies in two sections of its own, so that a
 * simulated restart can put back what a process starts with, whatever the unit keeps there. */
#pragma clang section data = "simdata" bss = "simbss"
