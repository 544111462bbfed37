// C27: topic aliases on the real broker
#include "routeflow.h"
int main(){ while (time_left()) route("C27", 40 + rnd(60)); return done(); }
