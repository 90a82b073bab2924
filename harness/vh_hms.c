/* Elapsed-time driver: for every number of seconds on stdin prints the split computed by
   nseconds_to_hms and the text printed by print_elapsed_time. */
#include "smokerand/core.h"
#include <stdio.h>

int main(void)
{
    unsigned long long n;
    while (scanf("%llu", &n) == 1) {
        TimeHMS t = nseconds_to_hms(n);
        printf("%llu %u %u %u ", n, (unsigned) t.h, (unsigned) t.m, (unsigned) t.s);
        print_elapsed_time(n);
        printf("\n");
    }
    return 0;
}
