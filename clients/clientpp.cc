#include "client.h"
int main() { return client_main(); }
