// Runs the threads of a process one at a time, in an order that a seed decides.
// Everything by which threads wait for one another goes through it (turns.cpp
// stands in for the C library's functions), and so do the memory accesses of
// sources compiled with -fsanitize=thread.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace sched {

enum Strategy { WALK, PCT, DFS };

struct Plan {
    int strategy = WALK;
    uint64_t seed = 1;
    double pSync = 0.3, pMem = 0.0;      // WALK: how often another thread is given the turn
    long changeSync = 0, changeMem = 0;  // PCT: numbers of changes of priority
    long lenSync = 1000, lenMem = 10000; // PCT: expected numbers of steps
};

// What is kept between the runs of one scenario (memory shared with the parent).
struct Shared {
    static const int Slots = 1 << 16;
    struct Slot {
        uint64_t at;
        uint32_t who;
        uint32_t written;
    } slot[Slots];
    long steps, memSteps; // of the last run
    bool learn;           // all accesses are recorded
};

void begin(const Plan&, Shared*); // the caller becomes the first thread
void end();
bool on();

void point();              // another thread may be given the turn
int quiet(int);            // whether the caller is to go on undisturbed (>0); returns what it was
// Waits until ready() holds; returns false if the deadline (virtual time, ns
// from now; -1: none) passed first.
bool wait(const std::function<bool()>& ready, const char* why, int64_t ns = -1);
void rest();               // waits until nothing else can move
bool finished(const std::string& prefix); // all threads so named have ended
std::string waiting(const char* why);     // names of threads that wait for that
void spawn(const std::string& name, const std::function<void()>&);
std::string self();
int64_t elapsed();         // virtual time spent waiting, ms

// Called when no thread can move, or an access is to memory that has been freed.
extern std::function<void(const std::string& kind, const std::string& what)> onDoom;
}
