// The phases of a program's life. Objects of life_before.cpp are linked ahead
// of the library, those of life_after.cpp behind it.
#pragma once
enum Phase {
    P_EARLY, P_BEFORE, P_AFTER,             // constructors of static objects: before everything else, before and after the library's own
    P_MAIN, P_UNWIND, P_FORK,               // main; a destructor run by an exception; a child process
    P_THREAD, P_TLS, P_TSD,                 // a second thread; its thread_local destructors; destructors of thread specific data, after those
    P_MAIN_TLS, P_ATEXIT,                   // thread_local destructors of the main thread, an exit handler older than main's first use
    P_DTOR_AFTER, P_DTOR_BEFORE, P_LAST,    // destructors of the static objects, in the opposite order
    PHASES
};
void life_phase(int phase);                 // runs the phase if it is selected
struct LifeObject { int end; LifeObject(int b, int e); ~LifeObject(); };    // holds numbers of its own
