#include <sim.h>
#include <ply-runtime/Base.h>
#include <ply-runtime/thread/Thread.h>
using namespace ply;
static void self2() {
    sim::sched.raceDetect = true;
    sim::randomSchedule(true);
    int* n = new int(0);
    Thread a{[=]{ for (int i=0;i<5;i++) (*n)++; }};
    Thread b{[=]{ for (int i=0;i<5;i++) (*n)++; }};
    a.join(); b.join();
}
SIM_PROP("SELF2", self2, "race");
static void self3() {
    char* p = (char*) PLY_HEAP.alloc(10);
    p[sim::W.below(12)] = 1;
    PLY_HEAP.free(p);
    if (sim::W.below(3)==2) p[0]=1;
    if (sim::W.below(5)==2) PLY_ASSERT(0);
}
SIM_PROP("SELF3", self3, "heap");
