// The globals a program using the library must define: the configuration table and the report
// table. Their constructors open databases and start threads, so the storage is raw and scenarios
// construct them where they want them.
#include "sim.h"
char g_config_mem[65536] __asm__("gConfig") __attribute__((aligned(64)));
char g_reports_mem[65536] __asm__("gReports") __attribute__((aligned(64)));
