#pragma once
#include <cstdint>
#define MAXFN 8192
#define MAXLBL 512
struct Label { char name[120]; int kind; volatile uint64_t reached, proved, sat; };
struct Viol { char kind[24]; char label[160]; char detail[600]; char known[64]; char model[6000]; };
#define MAXVIOL 32
struct Shm {
  volatile uint64_t paths, pathsCut, queries, solverUs, unknowns, maxQueryUs, insts, forks, concretizations, checks, checksSym, engineErr;
  volatile int tokens; volatile int stop; volatile int nviol; volatile int lock; volatile int nlabel; volatile uint64_t live;
  volatile uint8_t fnHit[MAXFN];
  Label labels[MAXLBL];
  Viol viol[MAXVIOL];
  char errMsg[2000];
  volatile uint64_t samplesN; char samples[12][400]; char sampleModels[12][6000]; volatile uint64_t doneN;
};
extern Shm *SHM;
