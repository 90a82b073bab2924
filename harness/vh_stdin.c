/* Standard-input generator through the public API.  argv: 32|64, then operations  bN (N outputs)  sN (sum of N outputs)  N (new instance)  F (destroy) */
#include "smokerand/core.h"
#include "smokerand/fileio.h"
#include <stdio.h>
#include <stdlib.h>
int main(int argc, char **argv)
{
    CallerAPI api = CallerAPI_init();
    GeneratorInfo gi = StdinCollector_get_info(atoi(argv[1]) == 32 ? stdin_collector_32bit : stdin_collector_64bit);
    void *st = gi.create(&gi, &api);
    printf("I %u %s\n", gi.nbits, gi.name);
    for (int i = 2; i < argc; i++) {
        unsigned long n = strtoul(argv[i] + 1, NULL, 10);
        if (argv[i][0] == 'b') for (unsigned long k = 0; k < n; k++) { printf("b %llx\n", (unsigned long long) gi.get_bits(st)); fflush(stdout); }
        else { printf("s %llx\n", (unsigned long long) gi.get_sum(st, n)); fflush(stdout); }
    }
    gi.free(st, &gi, &api);
    StdinCollector_print_report(&api);
    return 0;
}
