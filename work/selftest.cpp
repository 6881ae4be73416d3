#include <sim.h>
#include <ply-runtime/Base.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/Mutex.h>
using namespace ply;
static void self() {
    sim::sched.raceDetect = true;
    sim::randomSchedule(true);
    Mutex m;
    int n = 0;
    Array<Thread> th;
    for (int i = 0; i < 3; i++)
        th.append([&] {
            for (int k = 0; k < 5; k++) {
                LockGuard<Mutex> g(m);
                n++;
            }
        });
    for (auto& t : th) t.join();
    SIM_CHECK(n == 15, "count", "n=%d", n);
}
SIM_PROP("SELF", self, "self test");
