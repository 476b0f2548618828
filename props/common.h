// Shared by the scenarios: the process-wide tables and small helpers.
#pragma once
#include "sim.h"
#include "lin.h"
#include "Configuration.h"
#include "Logger.h"
#include "Threads.h"
#include <new>
#include <stdio.h>
#include <string.h>
using namespace sim;

extern ConfigurationTable gConfig;
// in the zygote: one global table in memory, so that logging works in every run
inline void zygote_config() { Sut s; new (&gConfig) ConfigurationTable(":memory:", "sim"); (void)gGetLoggingLevel("warmup"); }
// schema with one entry whose default is known
inline ConfigurationKeyMap sim_schema(const char *key = "Sim.Defaulted", const char *def = "99")
{
	ConfigurationKeyMap m; m[key] = ConfigurationKey(key, def, "", ConfigurationKey::DEVELOPER, ConfigurationKey::VALRANGE, "0:1000000", false, "a key of the simulation's \"own\" schema, isn't it");
	return m;
}
// string lookup as a number: -1 when the table says the key has no value
inline int64_t cfg_get(ConfigurationTable *t, const std::string &key)
{
	try { std::string s = SUT(t->getStr(key)); return s.empty() ? 0 : atoll(s.c_str()); } catch (ConfigurationTableKeyNotFound &) { return -1; }
}
