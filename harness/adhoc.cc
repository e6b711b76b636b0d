// The portable transpose, under another name so that it can be checked beside
// the one that is built in to the library.
#define Transpose TransposeAdhoc
#define transpose transposeAdhoc
#include "lube/transpose-adhoc.cpp"
const libube::UnaryFunctor* adhocTranspose = &libube::transposeAdhoc;
