/* The generator of builds without GnuTLS, under other names beside the one that is built in. */
#include <unistd.h>
#define onion_random_init plain_random_init
#define onion_random_free plain_random_free
#define onion_random_generate plain_random_generate
#include <onion/random-default.c>
