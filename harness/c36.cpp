// C36: routing on the real broker
#include "routeflow.h"
int main(){ while (time_left()) route("C36", 40 + rnd(60)); return done(); }
