// C15: incoming QoS 2 messages, in random conversations on the real code
#include "qosflow.h"
int main(){ case_timeout((int)secs_budget() + 60); while (time_left()) flow("C15", 1, 6, 20 + rnd(120), rnd(3) ? 5 : 4, 1 + rnd(rnd(2) ? 6 : 300)); return done(); }
