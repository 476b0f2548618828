#pragma once
#include "common.h"
#include "Reporting.h"
#include "sqlite3util.h"
#define REP_DB "/sim/rep.db"
inline void reports_open() { Sut s; new (&gReports) ReportingTable(REP_DB); }
inline sqlite3 *rep_reader() { Sut s; sqlite3 *db = 0; sqlite3_open(REP_DB, &db); sqlite3_busy_timeout(db, 2000); return db; }
// value stored for a name: -1 no such row, -2 not readable now
inline int64_t rep_value(sqlite3 *db, const std::string &name, const char *col = "VALUE")
{
	char *q = sqlite3_mprintf("SELECT %s FROM REPORTING WHERE NAME=%Q", col, name.c_str());
	sqlite3_stmt *st = 0; int64_t r = -2;
	if (sqlite3_prepare_v2(db, q, -1, &st, 0) == SQLITE_OK) {
		int rc = sqlite3_step(st);
		r = rc == SQLITE_ROW ? sqlite3_column_int64(st, 0) : rc == SQLITE_DONE ? -1 : -2;
	}
	sqlite3_finalize(st); sqlite3_free(q);
	return r;
}
