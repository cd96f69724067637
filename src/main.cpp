#include "vh.h"

#include <sched.h>

// The hook that replaces the pause instruction in busy-wait loops (SVS_VERIF_HOOKS).
extern "C" void svs_verif_pause() {
    static thread_local unsigned n = 0;
    if (++n % 64 == 0) {
        ::usleep(20);
    } else {
        ::sched_yield();
    }
}

int main(int argc, char** argv) { return vh::main(argc, argv); }
