#include "client.h"
int main(void) { return client_main(); }
