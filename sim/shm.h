#pragma once
#include <stdint.h>
// Shared with the driver (check.py): survives the death of a worker.
struct Shm {
    uint32_t magic, fatal;         // fatal: cls/detail describe how the process died
    uint64_t caseno, runs, evhash, planlen;
    char cls[64];
    char detail[3968];
    char prop[16];
    char plan[1];                  // up to the end of the file
};
enum { SHM_SIZE = 8 << 20 };
extern Shm *g_shm;
