// C14: the receive maximum, in random conversations on the real code
#include "qosflow.h"
int main(){ case_timeout((int)secs_budget() + 60); while (time_left()) flow("C14", 4, 1, 20 + rnd(120), rnd(3) ? 5 : 4, 1 + rnd(rnd(2) ? 6 : 300)); return done(); }
