From 5f1a450e5fd5ad14bdaeb8e92f5718a678fb1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 01/56] fix: Timeval::future normalises a sum of exactly one
 second

A deadline with tv_usec == 1000000 became a timespec with tv_nsec == 1e9, which
pthread_mutex_timedlock and pthread_cond_timedwait reject with EINVAL.
---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From b23a1365161b9ac975524c1091e04033c2dbd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 02/56] fix: Mutex::timedlock reports success only when it
 holds the lock, and counts it

Any error other than ETIMEDOUT was reported as success, and a lock acquired by
calling timedlock directly was not counted, so unlock() drove lockcnt() negative.
---
 Threads.cpp | 18 ++++++++++++++----
 Threads.h   |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..e47006c 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -120,12 +120,22 @@ bool Mutex::trylock(const char *file, unsigned line)
 	}
 }
 
-// Returns true if the lock was acquired within the timeout, or false if it timed out.
-bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+// Returns true if the lock was acquired within the timeout, or false if it was not.
+bool Mutex::_timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
+}
+
+bool Mutex::timedlock(int msecs)
+{
+	if (!_timedlock(msecs)) { return false; }
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = NULL; mLockerLine[mLockCnt] = 0;
+	}
+	mLockCnt++;		// unlock() will decrement it.
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +172,7 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (!_timedlock(1000)) {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
diff --git a/Threads.h b/Threads.h
index 6e004ba..3de1eb8 100644
--- a/Threads.h
+++ b/Threads.h
@@ -102,6 +102,9 @@ class Mutex {
 
 	std::string mutext() const;
 
+	// Acquire the underlying mutex only, without the lock count that unlock() expects; used by lock and timedlock.
+	bool _timedlock(int msecs);
+
 	// Returns true if the lock was acquired, or false if it timed out.
 	bool timedlock(int msecs);
 
-- 
2.43.0


From ea3baf8538a32942504d49a70a09b4c5cc11b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 03/56] fix: ScopedLockMultiple never waits for one mutex while
 holding another

When the caller entered owning the second or third mutex, or a try of the third
failed, it blocked on another mutex with one still held and two such callers
deadlocked.
---
 Threads.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index e47006c..96eebd7 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -256,18 +256,22 @@ void ScopedLockMultiple::_lockAll() {
 	// Do not return until we have locked all three mutexes.
 	for (int n=0; true; n++) {
 		// Attempt to lock in order 0,1,2.
-		_lock(0); 						// Wait on 0, unless it was locked by us on entry.
+		// Never wait for a mutex while holding another one, including those locked by the caller on entry.
+		if (!_trylock(0)) { _unlock(1); _unlock(2); _lock(0); }		// Wait on 0, unless it was locked by us on entry.
 		if (_trylock(1) && _trylock(2)) return;			// Then try to acquire 1 and 2
-		_unlock(1);										// If failure, release all.
+		_unlock(2);										// If failure, release all.
+		_unlock(1);
 		_unlock(0);
 		// Attempt to lock in order 1,0,2.
 		_lock(1);
 		if (_trylock(0) && _trylock(2)) return;
+		_unlock(2);
 		_unlock(0);
 		_unlock(1);
 		// Attempt to lock in order 2,1,0.
 		_lock(2);
 		if (_trylock(0) && _trylock(1)) return;
+		_unlock(1);
 		_unlock(0);
 		_unlock(2);	
 		LOCKLOG(DEBUG,"Multiple lock attempt %d",n);	// Seeing this message is a hint we are having contention issues.
-- 
2.43.0


From 374c57dea25505519404cd1f13332d949f6c9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 04/56] fix: iqWaitForEither returns when its timeout expires

After the deadline Signal::wait returned at once without releasing the lock, so
the loop spun forever and no writer could get in.
---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..87120da 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 20ede6ff79ca11c488b6b600cb02f656fbb3ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 05/56] fix: qGetLock of a connected InterthreadQueue is the
 lock its methods use

After iqConnect the queue is protected by the other queue's mutex, but qGetLock
still handed out the private one, so iteration under it raced with writers.
---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 87120da..010110f 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From 6e543586f6b08501e8178862a8bf49d715ffe51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 06/56] fix: InterthreadQueueWithWait wakes every thread
 waiting for the low water mark

Several waiters may wait for different marks; signalling one of them could wake
one whose mark is not reached and leave the other asleep for good.
---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 010110f..1a219cb 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -345,7 +345,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -372,7 +372,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -397,7 +397,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -409,7 +409,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From 7913b0c8edd8c0f1f6e58e3bdb1bf52007050e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 07/56] fix: InterthreadMap1::size takes the lock

ScopedLock(mLock) declares a variable named mLock; the method did not compile.
---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 1a219cb..d402be2 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -597,7 +597,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From fa039cc1ec0d921acec9c42e02caa4b9e268594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 08/56] fix: InterthreadMap deletes its elements when it is
 destroyed

The base destructor calls the base version of vdelete, which does nothing.
---
 Interthread.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index d402be2..481b953 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,16 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+
+	public:
+	// The base class destructor runs when this vdelete is already gone, so the elements must be deleted here.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		for (typename InterthreadMap1<K,D*>::Map::iterator iter = this->mMap.begin(); iter != this->mMap.end(); ++iter) {
+			vdelete(iter->second);
+		}
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From 5779f5a46481354945a4f2e9d0493eedfb909375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 09/56] fix: each ConfigurationTable ages its own cache, also
 when the clock is set back

---
 Configuration.cpp | 7 ++++---
 Configuration.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..73c95f6 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -94,6 +94,7 @@ float ConfigurationRecord::floatNumber() const
 
 
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
+	: mTimeOfLastPurge(0)
 {
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
@@ -916,12 +917,12 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	static time_t timeOfLastPurge = 0;
 	time_t now = time(NULL);
 	// purge every 3 seconds
 	// purge period cannot be configuration parameter
-	if (now - timeOfLastPurge < 3) return;
-	timeOfLastPurge = now;
+	// (if the clock was set back we cannot tell how old the cache is)
+	if (now >= mTimeOfLastPurge && now - mTimeOfLastPurge < 3) return;
+	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
 	while (mp != mCache.end()) {
diff --git a/Configuration.h b/Configuration.h
index 5f6004d..59ea991 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -197,6 +197,7 @@ class ConfigurationTable {
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
+	time_t mTimeOfLastPurge;	///< when checkCacheAge last emptied the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
 	public:
-- 
2.43.0


From 7ca6758cd6f344f8109354c921d611065e13b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 10/56] fix: quote configuration keys and values in SQL
 statements

---
 Configuration.cpp | 22 ++++++++++++++--------
 sqlite3util.cpp   | 24 ++++++++++++------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 73c95f6..af41b13 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -834,8 +834,10 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
-	return sqlite3_command(mDB,cmd.c_str());
+	char *cmd = sqlite3_mprintf("DELETE FROM CONFIG WHERE KEYSTRING==%Q",key.c_str());
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
+	return success;
 }
 
 
@@ -843,9 +845,11 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	char *cmd = sqlite3_mprintf("SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE '%%%q%%'",pat.c_str());
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
+	int rc = sqlite3_prepare_statement(mDB,&stmt,cmd);
+	sqlite3_free(cmd);
+	if (rc) return;
 	// Read the result.
 	int src = sqlite3_run_query(mDB,stmt);
 	while (src==SQLITE_ROW) {
@@ -894,14 +898,16 @@ bool ConfigurationTable::set(const string& key, const string& value)
 {
 	assert(mDB);
 	ScopedLock lock(mLock);
-	string cmd;
+	char *cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = sqlite3_mprintf("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (%Q,%Q,1,%Q)",
+			key.c_str(),value.c_str(),mSchema[key].getDescription().c_str());
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = sqlite3_mprintf("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (%Q,%Q,1)",key.c_str(),value.c_str());
 	}
 	
-	bool success = sqlite3_command(mDB,cmd.c_str());
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
 	// Cache the result.
 	if (success) mCache[key] = ConfigurationRecord(key,value);
 	return success;
diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..7d6e7da 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -166,12 +166,12 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	char *query = sqlite3_mprintf("SELECT * FROM %s WHERE %s == %Q",tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	int rc = sqlite3_prepare_statement(DB,&stmt,query,retries);
+	sqlite3_free(query);
+	if (rc) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -185,12 +185,12 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	char *query = sqlite3_mprintf("SELECT %s FROM %s WHERE %s == %Q",valueName,tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	int rc = sqlite3_prepare_statement(DB,&stmt,query,retries);
+	sqlite3_free(query);
+	if (rc) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -317,12 +317,12 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	char *query = sqlite3_mprintf("SELECT %s FROM %s WHERE %s == %Q",valueName,tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	int rc = sqlite3_prepare_statement(DB,&stmt,query,retries);
+	sqlite3_free(query);
+	if (rc) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
-- 
2.43.0


From fda994fe53c0af4a2d0126025aa0ea4e927239ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 11/56] fix: a failed configuration lookup is not cached

---
 Configuration.cpp | 10 ++++++++--
 Configuration.h   |  1 +
 sqlite3util.cpp   |  4 +++-
 sqlite3util.h     |  3 ++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index af41b13..025585f 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -674,10 +674,16 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 	// Check the database.
 	// This is more expensive.
 	char *value = NULL;
+	bool failed = false;
 	sqlite3_single_lookup(mDB,"CONFIG",
-			"KEYSTRING",key.c_str(),"VALUESTRING",value);
+			"KEYSTRING",key.c_str(),"VALUESTRING",value,5,&failed);
 
-	// (pat 9-2014) If sqlite3_single_lookup returns false, the behavior below is incorrect.
+	// The database could not be read, so we do not know if there is a value; do not cache anything.
+	if (failed) {
+		if (!keyDefinedInSchema(key)) throw ConfigurationTableKeyNotFound(key);
+		mUncached = ConfigurationRecord(key,mSchema[key].getDefaultValue());
+		return mUncached;
+	}
 
 	// value found, cache the result
 	if (value) {
diff --git a/Configuration.h b/Configuration.h
index 59ea991..c5d04bf 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -196,6 +196,7 @@ class ConfigurationTable {
 
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
+	ConfigurationRecord mUncached;	///< lookup result that must not be cached because the database could not be read
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	time_t mTimeOfLastPurge;	///< when checkCacheAge last emptied the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 7d6e7da..a2c7b74 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -314,9 +314,10 @@ string sqlite_single_lookup_string(sqlite3* db, const char* tableName,
 // This function returns an allocated string that must be free'd by the caller.
 bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* keyName, const char* keyData,
-		const char* valueName, char* &valueData, unsigned retries)
+		const char* valueName, char* &valueData, unsigned retries, bool *pFailed)
 {
 	valueData=NULL;
+	if (pFailed) { *pFailed = true; }	// Until we know better.
 	char *query = sqlite3_mprintf("SELECT %s FROM %s WHERE %s == %Q",valueName,tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
@@ -326,6 +327,7 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
+	if (pFailed) { *pFailed = src != SQLITE_ROW && src != SQLITE_DONE; }
 	if (src == SQLITE_ROW) {
 		const char* ptr = (const char*)sqlite3_column_text(stmt,0);
 		if (ptr) valueData = strdup(ptr);
diff --git a/sqlite3util.h b/sqlite3util.h
index bc14318..0ccfa8d 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -73,9 +73,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* valueName, unsigned &valueData, unsigned retries = 5);
 
 // This function returns an allocated string that must be free'd by the caller.
+// If it returns false, *pFailed (if specified) tells whether the database could not be read, as opposed to no such row.
 bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* keyName, const char* keyData,
-		const char* valueName, char* &valueData, unsigned retries = 5);
+		const char* valueName, char* &valueData, unsigned retries = 5, bool *pFailed = NULL);
 
 // This function returns an allocated string that must be free'd by the caller.
 bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
-- 
2.43.0


From 36a27c0a146b8abedd18f1d95698d50810884e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 12/56] fix: ReportingTable::commit keeps the increments it
 could not write

---
 Reporting.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..cf95b76 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -188,6 +188,7 @@ bool ReportingTable::commit()
 	if (oustandingCount > 0) {
 		Timeval timer;
 		char cmd[200];
+		bool success = true;
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
@@ -195,11 +196,17 @@ bool ReportingTable::commit()
 			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
 			if (!sqlite3_command(mDB,cmd)) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// put it back into the batch for the next commit
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
+				success = false;
 			}
 			mp++;
 		}
 
 		LOG(INFO) << "wrote " << oustandingCount << " entries in " << timer.elapsed() << "ms";
+		return success;
 	}
 
 	return true;
-- 
2.43.0


From 8cc285aa9999bd3a3bd741bfd1b225f94faed5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 13/56] fix: a reportShutdown that precedes the batch committer
 thread is not lost

---
 Reporting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index cf95b76..655b94c 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -39,6 +39,7 @@ static const char* createReportingTable = {
 
 
 ReportingTable::ReportingTable(const char* filename)
+	: mFacility(0), mReportRunning(true)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
@@ -215,7 +216,6 @@ bool ReportingTable::commit()
 extern ReportingTable gReports;
 void* reportingBatchCommitter(void*)
 {
-	gReports.mReportRunning = true;
 	while (gReports.mReportRunning) {
 		sleep(10);
 		gReports.commit();
-- 
2.43.0


From 6c1492eb80207f5b8954ff47126edc13aa2ac2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 14/56] fix: long or quoted report names no longer overflow or
 break the SQL commands

---
 Reporting.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 655b94c..8fa60af 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -73,9 +73,10 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	char *cmd = sqlite3_mprintf("INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (%Q,%ld)", paramName, time(NULL));
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
+	if (!success) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -97,9 +98,10 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	char *cmd = sqlite3_mprintf("UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=%Q", newVal, time(NULL), paramName);
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
+	if (!success) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -109,9 +111,10 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	char *cmd = sqlite3_mprintf("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=%Q", time(NULL), paramName);
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
+	if (!success) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -136,7 +139,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 {
 	size_t sz = strlen(baseName);
 	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
+		char name[sz+12];	// "." and up to 10 digits
 		sprintf(name,"%s.%u",baseName,i);
 		if (!create(name)) return false;
 	}
@@ -145,7 +148,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return incr(name);
 }
@@ -153,7 +156,7 @@ bool ReportingTable::incr(const char* baseName, unsigned index)
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return max(name,newVal);
 }
@@ -161,7 +164,7 @@ bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return clear(name);
 }
@@ -188,14 +191,15 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 		bool success = true;
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			char *cmd = sqlite3_mprintf("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=%Q", mp->second, time(NULL), mp->first.c_str());
+			bool written = sqlite3_command(mDB,cmd);
+			sqlite3_free(cmd);
+			if (!written) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 				// put it back into the batch for the next commit
 				mLock.lock();
-- 
2.43.0


From 30529cdd014b9f8f920f0f4de556a72537854878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 15/56] fix: LogGroup::setAll does not use level names after
 they are freed

---
 Logger.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..ba02bcd 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -374,12 +374,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// Return the value, or an empty string if not defined.
+static string getNonEmptyStrIfDefined(string param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
+	if (! gConfig.defines(param)) { return string(""); }
 	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -392,7 +392,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getNonEmptyStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -401,7 +402,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getNonEmptyStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From c8728fe9ad7cc65b888b619fbb09c3f6c30fc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 16/56] fix: UDDSocket::destination sets the address family

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..08da2aa 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -353,6 +353,7 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From 60a2c1ceb1cbde6d1e9fa0c47b7234642ad25f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 17/56] fix: DatagramSocket closes its descriptor once, and
 only if it was opened

---
 Sockets.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 08da2aa..52ebb0b 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -116,6 +116,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 
 DatagramSocket::DatagramSocket()
+	: mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
 }
@@ -136,7 +137,8 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
-	::close(mSocketFD);
+	if (mSocketFD >= 0) ::close(mSocketFD);
+	mSocketFD = -1;		// It may belong to someone else from now on.
 }
 
 
-- 
2.43.0


From ed9ae14e55daba1b0fced44e8f3ea50e0573386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 18/56] fix: the labelled allocation counts are updated under
 the lock

---
 MemoryLeak.h | 5 +++--
 Utils.cpp    | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index c7ae4f9..adb7229 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -70,6 +70,7 @@ struct MemStats {
 	// What a super great language.
 	typedef std::map<std::string,Int_z> MemMapType;
 	MemMapType mMemMap;
+	void memLabelAdd(const std::string &key, int delta);
 };
 extern struct MemStats gMemStats;
 extern int gMemLeakDebug;
@@ -82,7 +83,7 @@ extern int gMemLeakDebug;
 struct MemLabel {
 	std::string mccKey;
 	virtual ~MemLabel() {
-		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
+		Utils::gMemStats.memLabelAdd(mccKey,-1);
 	}
 };
 
@@ -100,7 +101,7 @@ struct MemLabel {
 #define RN_MEMLOG(type,ptr) { \
 	static std::string key = format("%s_%s:%d",#type,__FILE__,__LINE__); \
 	(ptr)->/* MemCheck##type:: */ mccKey = key; \
-	Utils::gMemStats.mMemMap[key]++; \
+	Utils::gMemStats.memLabelAdd(key,1); \
 	}
 
 // TODO: The above assumes that checkclass is MemCheck ## subClass
diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..93be2eb 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -95,6 +95,13 @@ void MemStats::memChkNew(MemoryNames memIndex, const char *id)
 	mMemName[memIndex] = id;
 }
 
+void MemStats::memLabelAdd(const string &key, int delta)
+{
+	ScopedLock lock(memChkLock);
+	Int_z &cnt = mMemMap[key];
+	cnt = cnt + delta;
+}
+
 void MemStats::memChkDel(MemoryNames memIndex, const char *id)
 {
 	ScopedLock lock(memChkLock);
-- 
2.43.0


From fb2b32627a74fcfa3f498743a1f2ce9e9f00173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 19/56] fix: two instances starting together cannot both create
 the pid file

---
 SelfDetect.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..d9c0c6d 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -70,9 +70,14 @@ void SelfDetect::RegisterProgram(const char *argv0)
 	Exit::exit(Exit::DETECTFILE);
     }
     
-    FILE *fp = fopen(buf, "w");
+    FILE *fp = fopen(buf, "wx");	// only one instance can succeed in creating it
     if (fp == NULL)
     {
+	if (errno == EEXIST)
+	{
+	    LOG(CRIT) << "*** Another instance of " << p << " is starting: " << buf << " exists, exiting...";
+	    Exit::exit(Exit::DETECTFILE);
+	}
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
 		Exit::exit(Exit::CREATEFILE);
     }
-- 
2.43.0


From 7af4f8a5285c27360d7ab8cfde6554c4f73d99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 20/56] fix: a log level removed while it is looked up does not
 throw out of the logger

---
 Logger.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index ba02bcd..0a11bdc 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -116,6 +116,18 @@ static int lookupLevel(const string& key)
 }
 
 
+// Return the value, or an empty string if not defined; the key may be removed at any time.
+static string getStrIfDefined(const string& key)
+{
+	try {
+		if (gConfig.defines(key)) { return gConfig.getStr(key); }
+	} catch (ConfigurationTableKeyNotFound) {
+		// It was removed between the two calls.
+	}
+	return string("");
+}
+
+
 int getLoggingLevel(const char* filename)
 {
 	// Default level?
@@ -126,13 +138,11 @@ int getLoggingLevel(const char* filename)
 	keyName.reserve(100);
 	keyName.append("Log.Level.");
 	keyName.append(filename);
-	if (gConfig.defines(keyName)) {
-		string keyVal = gConfig.getStr(keyName);
-		// (pat 4-2014) The CLI 'unconfig' command does not unset the value, it just gives an empty value,
-		// so check for that and treat it as an unset value, ie, do nothing.
-		if (keyVal.size()) {
-			return lookupLevel2(keyName,keyVal);
-		}
+	string keyVal = getStrIfDefined(keyName);
+	// (pat 4-2014) The CLI 'unconfig' command does not unset the value, it just gives an empty value,
+	// so check for that and treat it as an unset value, ie, do nothing.
+	if (keyVal.size()) {
+		return lookupLevel2(keyName,keyVal);
 	}
 	return lookupLevel("Log.Level");
 }
@@ -374,14 +384,6 @@ void LogGroup::LogGroupInit()
 }
 
 
-// Return the value, or an empty string if not defined.
-static string getNonEmptyStrIfDefined(string param)
-{
-	if (! gConfig.defines(param)) { return string(""); }
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return gConfig.getStr(param);
-}
-
 // Set all the Log.Group debug levels based on database settings
 void LogGroup::setAll()
 {
@@ -392,7 +394,7 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		string levelName = getNonEmptyStrIfDefined(param);
+		string levelName = getStrIfDefined(param);
 		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
@@ -402,7 +404,7 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		string levelName = getNonEmptyStrIfDefined(watchparam);
+		string levelName = getStrIfDefined(watchparam);
 		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
-- 
2.43.0


From c841e6668e0cf5fe8703594366f9a673a0a11601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 21/56] fix: long or quoted attribute names, values and keys
 reach the database intact

---
 sqlite3util.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index a2c7b74..25c18ad 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -85,18 +85,17 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+static string condition_c(const char *keyName, const char*keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	char *condition = sqlite3_mprintf("WHERE %s == %Q",keyName,keyValue);
+	string result(condition);
+	sqlite3_free(condition);
+	return result;
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return format("WHERE %s == %u",keyName,keyValue);
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -132,14 +131,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -372,9 +369,10 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	char *query = sqlite3_mprintf("REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES(%Q,%Q)",attr_name,attr_value);
+	bool success = sqlite3_command(db,query);
+	sqlite3_free(query);
+	if (! success) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
-- 
2.43.0


From 1c8ec942d8ee80be2b796ba61416ed689f7cfc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 22/56] fix: format keeps the last character of a 199 character
 result

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 93be2eb..fbb11d7 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -141,7 +141,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -184,7 +184,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From 89099b688613e09ad85c0795e9dbddfbf61fded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:27 +0000
Subject: [PATCH 23/56] fix: the result of gethostbyname is copied before
 another thread can overwrite it

---
 Sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 52ebb0b..85d3ddd 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -93,10 +93,10 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 	// Ideally it should be a global mutex for all non thread-safe socket
 	// operations and it should protect access to variables such as
 	// global h_errno.
-	sGethostbynameMutex.lock();
+	// The result is static data, so it stays protected until it is copied.
+	ScopedLock lock(sGethostbynameMutex);
 	hp = gethostbyname(host);
 	h_errno_local = h_errno;
-	sGethostbynameMutex.unlock();
 #endif
  	if (hp==NULL) {
 		LOG(WARNING) << "gethostbyname() failed for " << host << ", " << hstrerror(h_errno_local);
-- 
2.43.0


From 754d9201db779e53a55ea98745f776f8cf6dddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 24/56] fix: resolveAddress frees its copy when the port is
 missing

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 85d3ddd..e4a9681 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,6 +59,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
-- 
2.43.0


From ac32496b8e44b253309802819baf97b1756a4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 25/56] fix: a signal while RegisterProgram still registers
 handlers removes the pid file

---
 SelfDetect.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index d9c0c6d..c0ce387 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -83,6 +83,9 @@ void SelfDetect::RegisterProgram(const char *argv0)
     }
     fprintf(fp, "%d\n", getpid());
     fclose(fp);
+    // known before anything below can end the program and ask for the cleanup
+    mProg = strdup(argv0);
+    mFile = strdup(buf);
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
@@ -109,8 +112,6 @@ void SelfDetect::RegisterProgram(const char *argv0)
 				break;
 		}
     }
-    mProg = strdup(argv0);
-    mFile = strdup(buf);
 }
 
 void SelfDetect::Exit(int sig)
-- 
2.43.0


From 729a10c9680f15a1a72a0a3dc554eccb419b4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 26/56] fix: the pid file is not removed on signals that do not
 end the program

---
 SelfDetect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index c0ce387..599a270 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -106,6 +106,12 @@ void SelfDetect::RegisterProgram(const char *argv0)
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:105:Exit: *** Removing pid file /var/run/OpenBTS.pid
 			case SIGCONT:
 			case SIGCHLD:
+			// These do not end the program either: the pid file has to stay.
+			case SIGWINCH:
+			case SIGURG:
+			case SIGTSTP:
+			case SIGTTIN:
+			case SIGTTOU:
 				break;
 			default:
 				gSigVec.Register(sigfcn, i);
-- 
2.43.0


From 78aa79f76abec12350a45a5e17bd99a0f5528bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 27/56] fix: the configuration cache ages by the monotonic
 clock, so setting the clock back keeps nothing stale

---
 Configuration.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 025585f..6060e31 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <iostream>
 #include <string.h>
+#include <time.h>
 
 #ifdef DEBUG_CONFIG
 #define	debugLogEarly gLogEarly
@@ -929,11 +930,13 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	time_t now = time(NULL);
+	// not the time of day, which may be set back
+	struct timespec ts;
+	clock_gettime(CLOCK_MONOTONIC,&ts);
+	time_t now = ts.tv_sec;
 	// purge every 3 seconds
 	// purge period cannot be configuration parameter
-	// (if the clock was set back we cannot tell how old the cache is)
-	if (now >= mTimeOfLastPurge && now - mTimeOfLastPurge < 3) return;
+	if (now - mTimeOfLastPurge < 3) return;
 	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
-- 
2.43.0


From 6205ff8e8c806cc383504f6920b9e005c90210d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:05 +0000
Subject: [PATCH 28/56] fix: a copied leak-checked object is counted, and does
 not take its original's label with it

The implicit copy constructor did not count the new object although its
destructor counts it as gone, and copied the label, whose count then
fell twice.
---
 MemoryLeak.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index adb7229..03b9f1a 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -82,6 +82,10 @@ extern int gMemLeakDebug;
 
 struct MemLabel {
 	std::string mccKey;
+	MemLabel() {}
+	// The label counts the one object it was given to; a copy is not labelled and an object keeps its label when it is assigned to.
+	MemLabel(const MemLabel &) {}
+	MemLabel &operator=(const MemLabel &) { return *this; }
 	virtual ~MemLabel() {
 		Utils::gMemStats.memLabelAdd(mccKey,-1);
 	}
@@ -108,6 +112,8 @@ struct MemLabel {
 #define DEFINE_MEMORY_LEAK_DETECTOR_CLASS(subClass,checkerClass) \
 	struct checkerClass : public virtual Utils::MemLabel { \
 	    checkerClass() { RN_MEMCHKNEW(subClass); } \
+	    checkerClass(const checkerClass &) : Utils::MemLabel() { RN_MEMCHKNEW(subClass); } \
+	    checkerClass &operator=(const checkerClass &) { return *this; } \
 		virtual ~checkerClass() { \
 			RN_MEMCHKDEL(subClass); \
 		} \
-- 
2.43.0


From 42cd174736de92e8f9c1c67c4d17df7be7d3c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:50 +0000
Subject: [PATCH 29/56] fix: a pointer queue that is destroyed frees its nodes

---
 LinkedLists.cpp | 6 ++++++
 LinkedLists.h   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/LinkedLists.cpp b/LinkedLists.cpp
index 94e2533..79d49b0 100644
--- a/LinkedLists.cpp
+++ b/LinkedLists.cpp
@@ -69,6 +69,12 @@ void* PointerFIFO::get()
 }
 
 
+PointerFIFO::~PointerFIFO()
+{
+	while (mHead) get();
+	while (mFreeList) delete allocate();
+}
+
 ListNode *PointerFIFO::allocate()
 {
 	if (mFreeList==NULL) return new ListNode;
diff --git a/LinkedLists.h b/LinkedLists.h
index 0e28c63..91d26c8 100644
--- a/LinkedLists.h
+++ b/LinkedLists.h
@@ -72,6 +72,9 @@ class PointerFIFO {
 		mSize(0)
 	{}
 
+	/** Frees the nodes; the items belong to the client. */
+	~PointerFIFO();
+
 	unsigned size() const { return mSize; }
 	unsigned totalSize() const { return 0; }	// Not used in this version.
 
-- 
2.43.0


From aec6cfb6e8ac96b026ba93f96e90752ceb2efd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:50 +0000
Subject: [PATCH 30/56] fix: parsing key value pairs leaked the text, and a
 pair without '=' a copy of itself

---
 Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 6060e31..38a1d1e 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1000,7 +1000,7 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) { free(pair); return; }
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1043,8 +1043,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *rest = pairs;	// strsep moves this
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&rest," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From 501b9c0a8ddf3904a0593372e1c607b068c1817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 31/56] fix: reporting calls that run out of memory neither
 keep the lock nor lose counts

---
 Reporting.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 8fa60af..2710597 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -66,11 +66,12 @@ ReportingTable::ReportingTable(const char* filename)
 bool ReportingTable::create(const char* paramName)
 {
 	// add this report name to the batch map
-	mLock.lock();
-	if (mBatch.find(paramName) == mBatch.end()) {
-		mBatch[paramName] = 0;
+	{
+		ScopedLock lock(mLock);
+		if (mBatch.find(paramName) == mBatch.end()) {
+			mBatch[paramName] = 0;
+		}
 	}
-	mLock.unlock();
 
 	// and to the database
 	char *cmd = sqlite3_mprintf("INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (%Q,%ld)", paramName, time(NULL));
@@ -87,9 +88,8 @@ bool ReportingTable::create(const char* paramName)
 
 bool ReportingTable::incr(const char* paramName)
 {
-	mLock.lock();
+	ScopedLock lock(mLock);
 	mBatch[paramName]++;
-	mLock.unlock();
 
 	return true;
 }
@@ -176,17 +176,23 @@ bool ReportingTable::commit()
 	unsigned oustandingCount = 0;
 
 	// copy out to free up access to mBatch as quickly as possible
-	mLock.lock();
-	mp = mBatch.begin();
-	while (mp != mBatch.end()) {
-		if (mp->second > 0) {
-			oustanding[mp->first] = mp->second;
-			mBatch[mp->first] = 0;
-			oustandingCount++;
+	{
+		ScopedLock lock(mLock);
+		mp = mBatch.begin();
+		while (mp != mBatch.end()) {
+			if (mp->second > 0) {
+				oustanding[mp->first] = mp->second;
+				oustandingCount++;
+			}
+			mp++;
+		}
+		// all of it is copied, so nothing is lost by taking it out now
+		mp = mBatch.begin();
+		while (mp != mBatch.end()) {
+			mp->second = 0;
+			mp++;
 		}
-		mp++;
 	}
-	mLock.unlock();
 
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
-- 
2.43.0


From a0dd3bbe5093d1910de3020ffc6a05194db7446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 32/56] fix: a log level lookup or alarm copy that runs out of
 memory does not keep the lock

---
 Logger.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 0a11bdc..a056ef7 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -181,9 +181,8 @@ int gGetLoggingLevel(const char* filename)
 	// (pat) Probably because getLoggingLevel may call LOG recursively via lookupLevel().
 	sLogCacheLock.unlock();
 	int level = getLoggingLevel(filename);
-	sLogCacheLock.lock();
+	ScopedLock lock(sLogCacheLock);
 	sLogCache.insert(pair<uint64_t,int>(key,level));
-	sLogCacheLock.unlock();
 	return level;
 }
 
@@ -194,13 +193,12 @@ int gGetLoggingLevel(const char* filename)
 // copies the alarm list and returns it. list supposed to be small.
 list<string> gGetLoggerAlarms()
 {
-    alarmsLock.lock();
+    ScopedLock lock(alarmsLock);
     list<string> ret;
     // excuse the "complexity", but to use std::copy with a list you need
     // an insert_iterator - copy technically overwrites, doesn't insert.
     insert_iterator< list<string> > ii(ret, ret.begin());
     copy(alarmsList.begin(), alarmsList.end(), ii);
-    alarmsLock.unlock();
     return ret;
 }
 
-- 
2.43.0


From 70a590de6ec68cbb71a911ca84c2a4767fae3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:28 +0000
Subject: [PATCH 33/56] fix: a configuration call that runs out of memory
 caches nothing instead of a wrong value

---
 Configuration.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 38a1d1e..f12fe69 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -688,13 +688,13 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 
 	// value found, cache the result
 	if (value) {
-		mCache[key] = ConfigurationRecord(key,value);
+		mCache.insert(ConfigurationMap::value_type(key,ConfigurationRecord(key,value)));
 	// key definition found, cache the default
 	} else if (keyDefinedInSchema(key)) {
-		mCache[key] = ConfigurationRecord(key,mSchema[key].getDefaultValue());
+		mCache.insert(ConfigurationMap::value_type(key,ConfigurationRecord(key,mSchema[key].getDefaultValue())));
 	// total miss, cache the error
 	} else {
-		mCache[key] = ConfigurationRecord(key,false);
+		mCache.insert(ConfigurationMap::value_type(key,ConfigurationRecord(key,false)));
 		throw ConfigurationTableKeyNotFound(key);
 	}
 
@@ -905,6 +905,7 @@ bool ConfigurationTable::set(const string& key, const string& value)
 {
 	assert(mDB);
 	ScopedLock lock(mLock);
+	ConfigurationMap::value_type record(key,ConfigurationRecord(key,value));
 	char *cmd;
 	if (keyDefinedInSchema(key)) {
 		cmd = sqlite3_mprintf("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (%Q,%Q,1,%Q)",
@@ -916,7 +917,11 @@ bool ConfigurationTable::set(const string& key, const string& value)
 	bool success = sqlite3_command(mDB,cmd);
 	sqlite3_free(cmd);
 	// Cache the result.
-	if (success) mCache[key] = ConfigurationRecord(key,value);
+	if (success) {
+		// If this runs out of memory nothing is cached, rather than an old or empty value.
+		mCache.erase(record.first);
+		mCache.insert(record);
+	}
 	return success;
 }
 
-- 
2.43.0


From fa4f0b236817f07b50810f6e4457e944121f60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 34/56] fix: a thread waiting for a signal no longer counts as
 holding the mutex

---
 Threads.cpp | 16 ++++++++++++++++
 Threads.h   | 12 +++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index 96eebd7..49394f0 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -198,6 +198,21 @@ void Mutex::unlock()
 	pthread_mutex_unlock(&mMutex);
 }
 
+// Both are called with the mutex locked.
+Mutex::WaitState::WaitState(Mutex &wMutex) : mMutex(wMutex), mLockCnt(wMutex.mLockCnt)
+{
+	memcpy(mLockerFile,mMutex.mLockerFile,sizeof(mLockerFile));
+	memcpy(mLockerLine,mMutex.mLockerLine,sizeof(mLockerLine));
+	mMutex.mLockCnt = 0;
+}
+
+Mutex::WaitState::~WaitState()
+{
+	mMutex.mLockCnt = mLockCnt;
+	memcpy(mMutex.mLockerFile,mLockerFile,sizeof(mLockerFile));
+	memcpy(mMutex.mLockerLine,mLockerLine,sizeof(mLockerLine));
+}
+
 RWLock::RWLock()
 {
 	bool res;
@@ -287,6 +302,7 @@ void Signal::wait(Mutex& wMutex, long timeout) const
 	if (timeout <= 0) { return; }	// (pat) Timeout passed already
 	Timeval then(timeout);
 	struct timespec waitTime = then.timespec();
+	Mutex::WaitState state(wMutex);
 	pthread_cond_timedwait(&mSignal,&wMutex.mMutex,&waitTime);
 }
 
diff --git a/Threads.h b/Threads.h
index 3de1eb8..f305e55 100644
--- a/Threads.h
+++ b/Threads.h
@@ -114,6 +114,16 @@ class Mutex {
 	int lockcnt() { return mLockCnt; }
 
 	friend class Signal;
+	// A thread that waits for a Signal gives the mutex up, so the lock count and positions belong to others meanwhile.
+	class WaitState {
+		Mutex &mMutex;
+		int mLockCnt;
+		const char *mLockerFile[maxLocks];
+		unsigned mLockerLine[maxLocks];
+		public:
+		WaitState(Mutex &wMutex);
+		~WaitState();
+	};
 
 };
 
@@ -252,7 +262,7 @@ class Signal {
 		Under Linux, spurious returns are possible.
 	*/
 	void wait(Mutex& wMutex) const
-		{ pthread_cond_wait(&mSignal,&wMutex.mMutex); }
+		{ Mutex::WaitState state(wMutex); pthread_cond_wait(&mSignal,&wMutex.mMutex); }
 
 	void signal() { pthread_cond_signal(&mSignal); }
 
-- 
2.43.0


From 07ccd327a74de14a1d12229bd81bef44d0850fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:06 +0000
Subject: [PATCH 35/56] fix: sleeps of more than 71 minutes no longer end early

---
 Timeval.h | 13 +++++++++++--
 Utils.cpp |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/Timeval.h b/Timeval.h
index 5a5c609..190be09 100644
--- a/Timeval.h
+++ b/Timeval.h
@@ -29,13 +29,22 @@
 
 #include <stdint.h>
 #include "sys/time.h"
+#include <time.h>
 #include <iostream>
 #include <unistd.h>
 
 
 
-/** A wrapper on usleep to sleep for milliseconds. */
-inline void msleep(long v) { usleep(v*1000); }
+/** Sleep for milliseconds. */
+inline void msleep(long v)
+{
+	// Not usleep: it takes 32 bits of microseconds, about 71 minutes.
+	if (v <= 0) return;
+	struct timespec howlong;
+	howlong.tv_sec = v/1000;
+	howlong.tv_nsec = 1000000L*(v%1000);
+	nanosleep(&howlong,NULL);
+}
 
 
 /** A C++ wrapper for struct timeval. */
diff --git a/Utils.cpp b/Utils.cpp
index fbb11d7..2074ed5 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -316,7 +316,11 @@ const string timestr() { return timestr(12); }
 void sleepf(double howlong)
 {
 	if (howlong <= 0.00001) return;		// Less than 10 usecs, forget it.
-	usleep((useconds_t) (1000000.0 * howlong));
+	// Not usleep: it takes 32 bits of microseconds, about 71 minutes.
+	struct timespec howlongspec;
+	howlongspec.tv_sec = (time_t) howlong;
+	howlongspec.tv_nsec = (long) (1000000000.0 * (howlong - (double) howlongspec.tv_sec));
+	nanosleep(&howlongspec,NULL);
 }
 
 //bool sleepuntil(double untilwhen)
-- 
2.43.0


From 63f69b73e478488988ba6ef5bee2016a38d6472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 36/56] fix: a vector whose resizing fails no longer releases
 its storage twice

---
 Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..5ec21f4 100644
--- a/Vector.h
+++ b/Vector.h
@@ -185,7 +185,12 @@ template <class T> class VectorBase
 	void resize(size_t newElements) {
 		//VECTORDEBUG("VectorBase::resize("<<(void*)this<<","<<newElements<<")");
 		VECTORDEBUG("VectorBase::resize(%p,%d) %s",this,newElements, (mData?"delete":""));
-		if (mData!=NULL) delete[] mData;
+		if (mData!=NULL) {
+			delete[] mData;
+			// If there is no memory for the new elements the old ones must not be released again.
+			mData = NULL;
+			mStart = mEnd = NULL;
+		}
 		vInit(newElements);
 	}
 
-- 
2.43.0


From 6bbe8ae307fba7f0c91cbd22acfd989f760c56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 37/56] fix: a vector can be assigned from itself or from a
 part of itself

---
 Vector.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/Vector.h b/Vector.h
index 5ec21f4..805eb63 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this == &other) return;
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -199,15 +200,24 @@ template <class T> class VectorBase
 
 
 	/** Copy data from another vector. */
+	// The other vector may be this one, or an alias of part of it, so our own data is released last.
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		T* oldData = mData;
+		const T* from = other.mStart;
+		size_t len = other.bytes();
+		vInit(other.size());
+		memcpy(mData,from,len);
+		delete[] oldData;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-		this->resize(other1.size()+other2.size());
-		memcpy(this->mStart, other1.mStart, other1.bytes());
-		memcpy(this->mStart+other1.size(), other2.mStart, other2.bytes());
+		T* oldData = mData;
+		const T *from1 = other1.mStart, *from2 = other2.mStart;
+		size_t size1 = other1.size(), size2 = other2.size();
+		vInit(size1+size2);
+		memcpy(mStart, from1, size1*sizeof(T));
+		memcpy(mStart+size1, from2, size2*sizeof(T));
+		delete[] oldData;
 	}
 
 	protected:
-- 
2.43.0


From c535a77bea09e85339f7f6ccfdf80431448682d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 38/56] fix: creating indexed report parameters up to the
 largest index ends

---
 Reporting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 2710597..07a73c3 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -142,6 +142,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 		char name[sz+12];	// "." and up to 10 digits
 		sprintf(name,"%s.%u",baseName,i);
 		if (!create(name)) return false;
+		if (i == maxIndex) break;	// it may be the largest number there is
 	}
 	return true;
 }
-- 
2.43.0


From 1f7c821b39888a87187cbe40f34f48bcdb250869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 39/56] fix: URL encoding writes the right digits and encodes
 zero bytes

---
 URLEncode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..a5a164b 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,12 +32,12 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
 		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		if (ch && (isalnum(ch) || strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From 2a0e86178a329f7af38e32d9c1131e833e480ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 40/56] fix: an address with an invalid port number is not
 resolved

---
 Sockets.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index e4a9681..e9c4d95 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -64,7 +64,13 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	}
 	*colon = '\0';
 	char *host = copy;
-	unsigned port = strtol(colon+1,NULL,10);
+	char *end;
+	long port = strtol(colon+1,&end,10);
+	if (end==colon+1 || port<0 || port>65535) {
+		LOG(WARNING) << "invalid port number in:"<<hostAndPort;
+		free(copy);
+		return false;
+	}
 	bool retVal = resolveAddress(address,host,port);
 	free(copy);
 	return retVal;
-- 
2.43.0


From b8a4fd90b949776122ea04b3acdbc22a39786ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 41/56] fix: opening an open socket no longer leaks its
 descriptor

---
 Sockets.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index e9c4d95..e7f172f 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -275,6 +275,9 @@ void UDPSocket::destination( unsigned short wDestPort, const char * wDestIP )
 
 void UDPSocket::open(unsigned short localPort)
 {
+	// if it is open already
+	close();
+
 	// create
 	mSocketFD = socket(AF_INET,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
@@ -333,6 +336,9 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
+	// if it is open already
+	close();
+
 	// create
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
-- 
2.43.0


From 855654b6e58555bae5359bd596adae2daaf4d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:51 +0000
Subject: [PATCH 42/56] fix: an over-long path of a local socket no longer
 overflows its address

---
 Sockets.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index e7f172f..cf75f9e 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -352,6 +352,11 @@ void UDDSocket::open(const char* localPath)
 	size_t length = sizeof(address);
 	bzero(&address,length);
 	address.sun_family = AF_UNIX;
+	if (strlen(localPath) >= sizeof(address.sun_path)) {
+		LOG(ERR) << "socket path too long: " << localPath;
+		devassert(0);
+		throw SocketError();
+	}
 	strcpy(address.sun_path,localPath);
 	unlink(localPath);
 	if (bind(mSocketFD,(struct sockaddr*)&address,length)<0) {
@@ -368,6 +373,11 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	if (strlen(remotePath) >= sizeof(unAddr->sun_path)) {
+		LOG(ERR) << "socket path too long: " << remotePath;
+		devassert(0);
+		throw SocketError();
+	}
 	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
-- 
2.43.0


From 4f5d0764ecc6a517137ea6c8b1593ad12293041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:56 +0000
Subject: [PATCH 43/56] fix: a timed datagram read works for descriptors beyond
 FD_SETSIZE

---
 Sockets.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index cf75f9e..3388514 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <poll.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -228,21 +228,22 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
+	// Not select(): its descriptor sets have no room for descriptors beyond FD_SETSIZE.
+	struct pollfd fds;
+	fds.fd = mSocketFD;
+	fds.events = POLLIN;
+	fds.revents = 0;
+	struct timespec tv;
 	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	tv.tv_nsec = (timeout%1000)*1000000;
+	int sel = ppoll(&fds,1,&tv,NULL);
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() ppoll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
-	return -1;
+	return read(buffer);
 }
 
 
-- 
2.43.0


From 50d84ac44ac66933ec576bd14ec15ca3407155fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:56 +0000
Subject: [PATCH 44/56] fix: more than 32767 pointers may share a counted
 object

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 988235b..118fe18 100644
--- a/Utils.h
+++ b/Utils.h
@@ -200,7 +200,7 @@ extern string uintToString(uint32_t x);
 class RefCntBase {
 	template <class Type> friend class RefCntPointer;
 	mutable Mutex mRefMutex;
-	mutable short mRefCnt;		// signed, not unsigned!
+	mutable int mRefCnt;		// signed, not unsigned!
 	int setRefCnt(int val) { return mRefCnt = val; }
 	// The semantics of reference counting mean you cannot copy an object that has reference counts;
 	// they are only manipulated by pointers.  This constructor is private, which makes C++ whine if you do this.
-- 
2.43.0


From 436cf08ec03c087dd5777bfef7fb069fb87b88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:56 +0000
Subject: [PATCH 45/56] fix: time differences beyond 24 days no longer overflow

---
 Timeval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..26b87b7 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,10 +72,10 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
+	// 2^31 milliseconds is not quite 25 days.
 	int32_t deltaS = other.sec() - sec();
 	int32_t deltaUs = other.usec() - usec();
-	return 1000*deltaS + deltaUs/1000;
+	return 1000L*deltaS + deltaUs/1000;
 }
 	
 
-- 
2.43.0


From 5e0f1f9d99cddd4638dc4c6eeace892268c81574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:02 +0000
Subject: [PATCH 46/56] fix: handlers can be registered for the last real-time
 signal

---
 UnixSignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnixSignal.h b/UnixSignal.h
index 2c3f29e..578e70e 100644
--- a/UnixSignal.h
+++ b/UnixSignal.h
@@ -27,7 +27,7 @@
 class UnixSignal
 {
 public:
-    static const int C_NSIG = 64;
+    static const int C_NSIG = 65;	// one more than the largest signal
 private:
     std::list<sighandler_t>  mListHandlers[C_NSIG]; // list of signal handlers to call for all signals
     Mutex mLock[C_NSIG];
-- 
2.43.0


From 4c9da8cc77a31e8d0ca60e039cf79efb26697ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:21 +0000
Subject: [PATCH 47/56] fix: two threads handling signals no longer wait for
 each other's lists

Register and Dump hold the lock of one signal; a handler that interrupts the
thread meanwhile waits for the lock of another one, whose holder may itself be
interrupted by the first signal. Signals stay blocked while the lock is held.
---
 UnixSignal.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..8f6eabb 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -37,6 +37,16 @@
 
 //UnixSignal gSigVec;
 
+// While a thread has the lock of one signal it must not be interrupted by another one: two threads that each
+// handle the signal whose lock the other one has would wait for each other.
+class SignalsBlocked
+{
+    sigset_t mOld;
+public:
+    SignalsBlocked() { sigset_t all; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &mOld); }
+    ~SignalsBlocked() { pthread_sigmask(SIG_SETMASK, &mOld, NULL); }
+};
+
 static void _sigHandler(int sig)
 {
     signal(sig, SIG_IGN);
@@ -134,6 +144,7 @@ void UnixSignal::Register(sighandler_t handler, int sig) // register the handler
 	LOG(ERR) << "Unable to register callback for UnixSignal " << sig << " (out of range)";
 	return;
     }
+    SignalsBlocked blocked;
     mLock[sig].lock();
     signal(sig, _sigHandler); // only catch signals that have been registered
     mListHandlers[sig].insert(mListHandlers[sig].end(), handler);
@@ -144,6 +155,7 @@ void UnixSignal::Dump(void)
 {
     for (int sig = 0; sig < C_NSIG; sig++)
     {
+	SignalsBlocked blocked;
 	mLock[sig].lock();
 	if (mListHandlers[sig].size() != 0)
 	{
-- 
2.43.0


From 0b66d261f5b717834d7c484a74808cc098fca99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 48/56] fix: a query with a very long key is no longer cut off

---
 sqlite3util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 25c18ad..9659985 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -107,7 +107,8 @@ void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultCo
 	//char query[stringSize];
 	//snprintf(query,stringSize,"SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// We save the query in a string so the caller can print it out in error messages if the query fails.
-	mQueryString = format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
+	// Not format(), which cuts off a long one.
+	mQueryString = string("SELECT ") + resultColumns + " FROM " + tableName + " " + condition;
 	// Prepare the statement.
 	if (sqlite3_prepare_statement(mdb,&mStmt,mQueryString.c_str(),retries)) { mStmt = NULL; return; }
 	// Read the result.
-- 
2.43.0


From 4281fa8f99b18179e7ada65b3f73ed0e8cea2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:33 +0000
Subject: [PATCH 49/56] fix: files registered for removal by two threads at
 once are no longer lost

---
 SelfDetect.cpp | 1 +
 SelfDetect.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 599a270..19e04ae 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -151,6 +151,7 @@ void SelfDetect::RegisterFile(const char *file)
 {
     LOG(NOTICE) << "*** Registering " << file << " for removal at program exit";
     std::string s(file);
+    ScopedLock lock(mFilesLock);
     mListFiles.push_back(s);
 }
 
diff --git a/SelfDetect.h b/SelfDetect.h
index ccf47fa..ef09c89 100644
--- a/SelfDetect.h
+++ b/SelfDetect.h
@@ -21,6 +21,7 @@
 #include <string>
 #include <cstdlib>
 #include <cstdio>
+#include "Threads.h"
 
 /** A C++ wrapper for preventing 2 instances of a program from running. */
 class SelfDetect
@@ -29,6 +30,7 @@ private:
     const char             *mProg; // program name, which will map to /tmp/%s.pid
     const char             *mFile; // file in /tmp for pid
     std::list<std::string>  mListFiles; // list of files to be removed at shutdown
+    Mutex                   mFilesLock; // several threads may register files; Exit, which may run in a signal handler, must not wait
 public:
     SelfDetect(void)
     {
-- 
2.43.0


From 3bea0325ff4f505b42d063411ec7b3eaf108102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:34 +0000
Subject: [PATCH 50/56] fix: the echo of an alarm no longer mixes with other
 lines on the console

---
 Logger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Logger.cpp b/Logger.cpp
index a056ef7..8cde5e2 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -220,7 +220,10 @@ Log::~Log()
 	// Save alarms in the local list and echo them to stderr.
 	if (mPriority <= LOG_CRIT) {
 		if (sLoggerInited) addAlarm(mStream.str().c_str());
-		cerr << mStream.str() << endl;
+		int len = mStream.str().size();
+		ScopedLock lock(gLogToLock);	// not in the middle of another line
+		cerr << mStream.str();
+		if (len==0 || mStream.str()[len-1] != '\n') cerr << "\n";
 	}
 	// Current logging level was already checked by the macro.
 	// So just log.
-- 
2.43.0


From ce4ac8b330726f99ec2b9f0502e335d09466e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:21 +0000
Subject: [PATCH 51/56] fix: a timed socket read no longer waits for ever for a
 datagram that was dropped after it was announced

---
 Sockets.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 3388514..2b0efbd 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -233,17 +233,35 @@ int DatagramSocket::read(char* buffer, unsigned timeout)
 	fds.fd = mSocketFD;
 	fds.events = POLLIN;
 	fds.revents = 0;
-	struct timespec tv;
-	tv.tv_sec = timeout/1000;
-	tv.tv_nsec = (timeout%1000)*1000000;
-	int sel = ppoll(&fds,1,&tv,NULL);
-	if (sel<0) {
-		perror("DatagramSocket::read() ppoll() failed");
-		devassert(0);
-		throw SocketError();
+	struct timespec end;
+	clock_gettime(CLOCK_MONOTONIC,&end);
+	end.tv_sec += timeout/1000;
+	end.tv_nsec += (timeout%1000)*1000000;
+	while (1) {
+		struct timespec tv;
+		clock_gettime(CLOCK_MONOTONIC,&tv);
+		long long left = (end.tv_sec-tv.tv_sec)*1000000000LL + (end.tv_nsec-tv.tv_nsec);
+		if (left<0) left = 0;
+		tv.tv_sec = left/1000000000LL;
+		tv.tv_nsec = left%1000000000LL;
+		int sel = ppoll(&fds,1,&tv,NULL);
+		if (sel<0) {
+			perror("DatagramSocket::read() ppoll() failed");
+			devassert(0);
+			throw SocketError();
+		}
+		if (sel==0) return -1;
+		// Do not wait here: the datagram may be gone again, dropped for its checksum or read by another thread.
+		socklen_t sourceLength = sizeof(mSource);
+		int length = recvfrom(mSocketFD, (void*)buffer, MAX_UDP_LENGTH, MSG_DONTWAIT,
+		    (struct sockaddr*)&mSource,&sourceLength);
+		if (length>=0) return length;
+		if (errno!=EAGAIN) {
+			perror("DatagramSocket::read() failed");
+			devassert(0);
+			throw SocketError();
+		}
 	}
-	if (sel==0) return -1;
-	return read(buffer);
 }
 
 
-- 
2.43.0


From 5e49f48e5f556146699776b3b55c8d4352b85d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:21 +0000
Subject: [PATCH 52/56] fix: sqlite_single_lookup_string is declared as it is
 defined

---
 sqlite3util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3util.h b/sqlite3util.h
index 0ccfa8d..938c752 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -91,7 +91,7 @@ bool sqlite_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, std::string &valueData);
 
 //std::vector<std::string> sqlite_multi_lookup_vector(sqlite3* DB, const char* tableName, const char* keyName, const char* keyData, const char *resultColumns);
-std::string sqlite_single_lookup_string(sqlite3* DB, const char* tableName, const char* keyName, unsigned keyData, const char* valueName);
+std::string sqlite_single_lookup_string(sqlite3* DB, const char* tableName, const char* keyName, const char* keyData, const char* valueName);
 
 // Get and set attributes on an sqlite database.  Works by creating an ATTR_TABLE in the database.
 bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char *attr_value);
-- 
2.43.0


From d22b95f82fade94a44a127ebb889cdc7a1363ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:55 +0000
Subject: [PATCH 53/56] fix: vector lookups do not abort the program when
 memory is short

---
 Configuration.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index f12fe69..bfc8c9e 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -773,19 +773,17 @@ float ConfigurationTable::getFloat(const string& key)
 std::vector<string> ConfigurationTable::getVectorOfStrings(const string& key)
 {
 	// Look up the string.
-	char *line=NULL;
+	string line;
 	try {
 		ScopedLock lock(mLock);
-		const ConfigurationRecord& rec = lookup(key);
-		line = strdup(rec.value().c_str());
+		line = lookup(key).value();
 	} catch (ConfigurationTableKeyNotFound) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
 	}
 
-	assert(line);
-	char *lp = line;
+	char *lp = &line[0];
 	
 	// Parse the string.
 	std::vector<string> retVal;
@@ -796,7 +794,6 @@ std::vector<string> ConfigurationTable::getVectorOfStrings(const string& key)
 		if (!tp) break;
 		retVal.push_back(tp);
 	}
-	free(line);
 	return retVal;
 }
 
@@ -804,19 +801,17 @@ std::vector<string> ConfigurationTable::getVectorOfStrings(const string& key)
 std::vector<unsigned> ConfigurationTable::getVector(const string& key)
 {
 	// Look up the string.
-	char *line=NULL;
+	string line;
 	try {
 		ScopedLock lock(mLock);
-		const ConfigurationRecord& rec = lookup(key);
-		line = strdup(rec.value().c_str());
+		line = lookup(key).value();
 	} catch (ConfigurationTableKeyNotFound) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
 	}
 
-	assert(line);
-	char *lp = line;
+	char *lp = &line[0];
 
 	// Parse the string.
 	std::vector<unsigned> retVal;
@@ -827,7 +822,6 @@ std::vector<unsigned> ConfigurationTable::getVector(const string& key)
 		retVal.push_back(strtol(lp,NULL,0));
 		strsep(&lp," ");
 	}
-	free(line);
 	return retVal;
 }
 
-- 
2.43.0


From c12ead763c7a2918a645a86aa890593e2ea08471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:16 +0000
Subject: [PATCH 54/56] fix: listings that run out of memory do not leave the
 table locked

---
 Configuration.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index bfc8c9e..9bc031d 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -843,6 +843,15 @@ bool ConfigurationTable::remove(const string& key)
 
 
 
+// Finishes a statement also when an exception leaves the function: an unfinished one keeps the database locked.
+struct StatementFinisher
+{
+	sqlite3_stmt *mStmt;
+	StatementFinisher(sqlite3_stmt *wStmt) : mStmt(wStmt) { }
+	~StatementFinisher() { sqlite3_finalize(mStmt); }
+};
+
+
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
@@ -851,6 +860,7 @@ void ConfigurationTable::find(const string& pat, ostream& os) const
 	int rc = sqlite3_prepare_statement(mDB,&stmt,cmd);
 	sqlite3_free(cmd);
 	if (rc) return;
+	StatementFinisher finisher(stmt);
 	// Read the result.
 	int src = sqlite3_run_query(mDB,stmt);
 	while (src==SQLITE_ROW) {
@@ -864,7 +874,6 @@ void ConfigurationTable::find(const string& pat, ostream& os) const
 		else os << "(disabled)" << endl;
 		src = sqlite3_run_query(mDB,stmt);
 	}
-	sqlite3_finalize(stmt);
 }
 
 
@@ -876,6 +885,7 @@ ConfigurationRecordMap ConfigurationTable::getAllPairs() const
 	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG";
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return tmp;
+	StatementFinisher finisher(stmt);
 	// Read the result.
 	int src = sqlite3_run_query(mDB,stmt);
 	while (src==SQLITE_ROW) {
@@ -890,7 +900,6 @@ ConfigurationRecordMap ConfigurationTable::getAllPairs() const
 		}
 		src = sqlite3_run_query(mDB,stmt);
 	}
-	sqlite3_finalize(stmt);
 
 	return tmp;
 }
-- 
2.43.0


From 8c048957b5cd37f7de492df5618b24664a168a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:41 +0000
Subject: [PATCH 55/56] fix: a missing key is caught by reference, copying the
 exception may end the program

---
 Configuration.cpp | 14 +++++++-------
 Logger.cpp        |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 9bc031d..e16c4bc 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -348,7 +348,7 @@ bool ConfigurationTable::defines(const string& key)
 	try {
 		ScopedLock lock(mLock);
 		return lookup(key).defined();
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// TODO: re-enable once we figure out why this message is being sent to syslog regardless of log level
 		//gLogEarly(LOG_DEBUG, "configuration parameter %s not found", key.c_str());
 		return false;
@@ -724,7 +724,7 @@ string ConfigurationTable::getStr(const string& key)
 	try {
 		ScopedLock lock(mLock);
 		return lookup(key).value();
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
@@ -736,7 +736,7 @@ bool ConfigurationTable::getBool(const string& key)
 {
 	try {
 		return getNum(key) != 0;
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
@@ -750,7 +750,7 @@ long ConfigurationTable::getNum(const string& key)
 	try {
 		ScopedLock lock(mLock);
 		return lookup(key).number();
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
@@ -763,7 +763,7 @@ float ConfigurationTable::getFloat(const string& key)
 	try {
 		ScopedLock lock(mLock);
 		return lookup(key).floatNumber();
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
@@ -777,7 +777,7 @@ std::vector<string> ConfigurationTable::getVectorOfStrings(const string& key)
 	try {
 		ScopedLock lock(mLock);
 		line = lookup(key).value();
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
@@ -805,7 +805,7 @@ std::vector<unsigned> ConfigurationTable::getVector(const string& key)
 	try {
 		ScopedLock lock(mLock);
 		line = lookup(key).value();
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// Raise an alert and re-throw the exception.
 		gLogEarly(LOG_DEBUG, "configuration parameter %s has no defined value", key.c_str());
 		throw ConfigurationTableKeyNotFound(key);
diff --git a/Logger.cpp b/Logger.cpp
index 8cde5e2..2077538 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -121,7 +121,7 @@ static string getStrIfDefined(const string& key)
 {
 	try {
 		if (gConfig.defines(key)) { return gConfig.getStr(key); }
-	} catch (ConfigurationTableKeyNotFound) {
+	} catch (ConfigurationTableKeyNotFound&) {
 		// It was removed between the two calls.
 	}
 	return string("");
-- 
2.43.0


From 9b8cef707756e6952b32b67222dfba4d53a37bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:55 +0000
Subject: [PATCH 56/56] fix: a value that cannot be copied for want of memory
 is not taken for no value

---
 Configuration.cpp |  7 ++++++-
 sqlite3util.cpp   | 13 ++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index e16c4bc..c042ae1 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -688,7 +688,12 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 
 	// value found, cache the result
 	if (value) {
-		mCache.insert(ConfigurationMap::value_type(key,ConfigurationRecord(key,value)));
+		try {
+			mCache.insert(ConfigurationMap::value_type(key,ConfigurationRecord(key,value)));
+		} catch (...) {
+			free(value);
+			throw;
+		}
 	// key definition found, cache the default
 	} else if (keyDefinedInSchema(key)) {
 		mCache.insert(ConfigurationMap::value_type(key,ConfigurationRecord(key,mSchema[key].getDefaultValue())));
diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 9659985..da761d3 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -50,6 +50,11 @@ int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* quer
 {
         int src = SQLITE_BUSY;
 
+	*stmt = NULL;
+	if (!query) {		// from sqlite3_mprintf()
+		_LOG(ERR) << "out of memory for a query";
+		return SQLITE_NOMEM;
+	}
 	for (unsigned i = 0; i < retries; i++) {
 		src = sqlite3_prepare_v2(DB,query,strlen(query),stmt,NULL);
 		if (src != SQLITE_BUSY && src != SQLITE_LOCKED) {
@@ -325,13 +330,14 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
-	if (pFailed) { *pFailed = src != SQLITE_ROW && src != SQLITE_DONE; }
 	if (src == SQLITE_ROW) {
+		bool isNull = sqlite3_column_type(stmt,0) == SQLITE_NULL;
 		const char* ptr = (const char*)sqlite3_column_text(stmt,0);
 		if (ptr) valueData = strdup(ptr);
-		retVal = true;
+		retVal = isNull || valueData;	// else out of memory, which is not the same as no value
 	}
 	sqlite3_finalize(stmt);
+	if (pFailed) { *pFailed = !retVal && src != SQLITE_DONE; }
 	return retVal;
 }
 
@@ -352,9 +358,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
 	if (src == SQLITE_ROW) {
+		bool isNull = sqlite3_column_type(stmt,0) == SQLITE_NULL;
 		const char* ptr = (const char*)sqlite3_column_text(stmt,0);
 		if (ptr) valueData = strdup(ptr);
-		retVal = true;
+		retVal = isNull || valueData;	// else out of memory, which is not the same as no value
 	}
 	sqlite3_finalize(stmt);
 	return retVal;
-- 
2.43.0

