#include "../omc/omc.h"
int main(int argc, char** argv) { return omc::omc_main(argc, argv); }
