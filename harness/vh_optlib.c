/* A battery that reports the options and the generator it was given (to the file VH_OPT) and returns VH_RC. */
#include "smokerand/core.h"
#include <stdio.h>
#include <stdlib.h>
BatteryExitCode battery_func(const GeneratorInfo *gen, const CallerAPI *intf, const BatteryOptions *opts);
BatteryExitCode battery_func(const GeneratorInfo *gen, const CallerAPI *intf, const BatteryOptions *opts)
{
    FILE *f = fopen(getenv("VH_OPT"), "w");
    if (!f) exit(77);
    fprintf(f, "id=%u\ntestname=%s\nnthreads=%u\nreport=%d\nbatparam=%s\nparam=%s\nnbits=%u\ngen=%s\n", opts->test.id, opts->test.name ? opts->test.name : "(null)",
        opts->nthreads, (int) opts->report_type, opts->param ? opts->param : "(null)", intf->get_param(), gen->nbits, gen->name);
    void *st = gen->create(gen, intf);
    fprintf(f, "created=%d\nwords=", st != NULL);
    for (int i = 0; st && i < 8; i++) fprintf(f, "%llx ", (unsigned long long) gen->get_bits(st));
    fprintf(f, "\nend=1\n");
    fclose(f);
    if (st) gen->free(st, gen, intf);
    return (BatteryExitCode) atoi(getenv("VH_RC") ? getenv("VH_RC") : "0");
}
