// A library that needs something that is not there
extern "C" int mcThereIsNoSuchThing;
extern "C" int* mcWanted = &mcThereIsNoSuchThing;
