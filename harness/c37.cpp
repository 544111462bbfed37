// C37: prefixes of bridges on the real broker
#include "routeflow.h"
int main(){ while (time_left()) route("C37", 40 + rnd(60)); return done(); }
