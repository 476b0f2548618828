/* stub of the google coredumper library; the simulator records the call */
#pragma once
extern "C" int WriteCoreDump(const char *name);
