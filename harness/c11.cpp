// C11: delivered copies on the real broker
#include "routeflow.h"
int main(){ while (time_left()) route("C11", 40 + rnd(60)); return done(); }
