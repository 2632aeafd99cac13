From 50c9c44656809037c292655b8b41da19013c3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 01/43] fix: getByte/getInt/... overwrote the stack for array
 and struct grids

The convert(const void*, void*) overload of ArrayType and StructType hid
BasicType::convert<B>, so the whole cell was copied into the scalar.
---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..9d515be 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -143,6 +143,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversion functions of the base class
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..14e7fd9 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -214,6 +214,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// Do not hide the conversion functions of the base class
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From 871a6d440388801b95802fe1202675b23c2cb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 02/43] fix: opening a further level destroyed the levels
 already open

Resizing the vector copied (and destroyed) open levels, which do not own
their data in a copyable way.
---
 grid/simplecontainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..8fc43e6 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -38,7 +38,7 @@
 #ifndef GRID_SIMPLECONTAINER_H
 #define GRID_SIMPLECONTAINER_H
 
-#include <vector>
+#include <deque>
 
 #include "typedcontainer.h"
 
@@ -55,7 +55,7 @@ class SimpleContainer : public TypedContainer<Type>
 {
 private:
 	/** All grids we control */
-	std::vector<Level> m_levels;
+	std::deque<Level> m_levels; // Never relocates (open) levels
 
 public:
 	/**
-- 
2.43.0


From 57415b395ea5d2469d62f5e413fd95f895f1ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 03/43] fix: getCounter ignored the level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..87ed8d8 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -257,7 +257,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From d24a5334c360e459d3f80606abdcc1d0656a3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 04/43] fix: NUMA communication was not used for cached grids
 without MPI

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 87ed8d8..5eef5ee 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -347,9 +347,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From faeb36c1aad8962c8671a62213096b6ed1ae70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 05/43] fix: a hand spread not smaller than the cache size
 wrote behind the cache's flags

---
 cache/lru.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..5879894 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -82,7 +82,7 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			m_nextClear = handDiff % size;
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From 0e108c841475d319d28b2e597f1ceac83831853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 06/43] fix: the default block size of the time dimension was
 not 1

---
 grid/level/blocked.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..e9e5436 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -103,21 +103,18 @@ protected:
 			timeDimension = -1;
 		}
 
-		// Set block size in time dimension
-		if ((timeDimension >= 0) && (blockSize[timeDimension] == 0)) {
-			logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
-			// C to Fortran mapping
-			m_blockSize[this->dimensions() - timeDimension - 1] = 1;
-		}
-
 		// Set default block size and calculate number of blocks and total block size
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
-				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
-			else if (blockSize[this->dimensions() - i - 1] < 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
+				// Setting default block size
+				if (static_cast<int>(this->dimensions() - i - 1) == timeDimension) {
+					logDebug(this->comm().rank()) << "Setting block size in time dimension to 1";
+					m_blockSize[i] = 1;
+				} else
+					m_blockSize[i] = 64;
+			} else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
 			else
-- 
2.43.0


From cffc935c07173111f15709b1f2a21712cb0ed103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 07/43] fix: negative values of TIME-DIMENSION and
 CACHE-HAND-SPREAD were read as 0

The minus sign was replaced by an underscore.
---
 grid/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 5eef5ee..1c2b537 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -202,7 +202,10 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 
 	// Convert non name values to upper case
 	std::string v = value;
+	// (and keep the sign of numbers)
 	if (n != "VARIABLE"
+			&& n != "TIME_DIMENSION"
+			&& n != "CACHE_HAND_SPREAD"
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
 		std::replace(v.begin(), v.end(), '-', '_');
-- 
2.43.0


From 41b89ceed883c019b9d32dcf6ec042107c6ec94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 08/43] fix: spurious wakeups released threads from a
 barrier/broadcast too early

---
 threads/sync.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..ec099c4 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -106,11 +106,14 @@ public:
 	 */
 	bool startBarrier()
 	{
-		if (!pthread_mutex_lock(&m_mutex))
+		if (pthread_mutex_lock(&m_mutex) != 0)
+			return false;
 
-		if (m_finishing) {
-			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
+		while (m_finishing) {
+			if (pthread_cond_wait(&m_finishCondition, &m_mutex) != 0) {
+				pthread_mutex_unlock(&m_mutex);
 				return false;
+			}
 		}
 
 		return true;
@@ -139,14 +142,16 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From ba64c9a3183dbb6c800d7124ee7403d759a9046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 09/43] fix: data race on the state of threads::Once

---
 threads/once.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threads/once.h b/threads/once.h
index 609e46b..8f87f94 100644
--- a/threads/once.h
+++ b/threads/once.h
@@ -38,6 +38,7 @@
 #ifndef THREADS_ONCE_H
 #define THREADS_ONCE_H
 
+#include <atomic>
 #include <mutex>
 
 #include "mutex.h"
@@ -51,7 +52,7 @@ namespace threads
 class Once {
 private:
 	/** Already executed */
-	bool m_state;
+	std::atomic<bool> m_state;
 
 	/** Mutex to lock the state */
 	Mutex m_mutex;
-- 
2.43.0


From 35946072d46d1e16850f32bd88ca058412344896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 10/43] fix: grids could not be created and closed/used through
 Fortran handles concurrently

Adding a pointer may relocate the array that get() and remove() accessed
without the lock.
---
 fortran/pointerarray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..569e4e3 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,9 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure only one thread at a time accesses the array
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +85,8 @@ public:
 	 */
 	T* get(int i) const
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +98,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From 35f394bd37b17704623fa00e48560eea70e90777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 11/43] fix: opening a level again after an error leaked the
 input file

---
 grid/level/level.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..0f725b4 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -218,7 +218,8 @@ protected:
 
 		asagi::Grid::Error err;
 
-		// Open NetCDF file
+		// Open NetCDF file (and forget the file of an earlier, failed attempt)
+		delete m_inputFile;
 		m_inputFile = new io::NetCdfReader(filename, comm().rank());
 		if ((err = m_inputFile->open(varname)) != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From 6dc5229eefdf98199554c6c75b3d4b1de5c92656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 12/43] fix: reading a variable without dimensions wrote in
 front of an array

---
 io/netcdfreader.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 9d377de..8bd0e78 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -208,9 +208,11 @@ public:
 
 		// The distance between 2 values in the internal representation
 		ptrdiff_t imap[MAX_DIMENSIONS];
-		imap[m_dimensions-1] = 1;
-		for (int i = m_dimensions-2; i >= 0; i--)
-			imap[i] = imap[i+1] * size[i+1];
+		ptrdiff_t distance = 1;
+		for (int i = m_dimensions-1; i >= 0; i--) {
+			imap[i] = distance;
+			distance *= size[i];
+		}
 
 		std::lock_guard<threads::Mutex> lock(netcdfLock);
 		getVar(offset, actSize, size, imap,
-- 
2.43.0


From 163770ceaeb8b11e3acb4115bf1a375429d618cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 13/43] Verification hook: selection of the instantiated grid
 types (ASAGI_VERIF_TYPELIST)

---
 grid/grid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 1c2b537..c7e34e5 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -299,6 +299,10 @@ void grid::Grid::initContainers()
 		UNKNOWN
 	} containerType = UNKNOWN;
 
+#ifdef ASAGI_VERIF_TYPELIST
+	// Verification builds: a selection of the types (shorter compile times)
+	typedef magic::MakeTypelist<ASAGI_VERIF_TYPELIST>::result typelist;
+#else // ASAGI_VERIF_TYPELIST
 	typedef magic::MakeTypelist<
 			types::ArrayType<unsigned char>,
 			types::ArrayType<int>,
@@ -316,6 +320,7 @@ void grid::Grid::initContainers()
 			types::BasicType<float>,
 			types::BasicType<double>
 	>::result typelist;
+#endif // ASAGI_VERIF_TYPELIST
 
 	// Select MPI communication
 	std::string mpiType = param("MPI_COMMUNICATION", "WINDOW");
-- 
2.43.0


From b76a7c4ac08662d4e5fbe977c41ab0b81259f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 14/43] fix: closing a grid without a thread-specific key
 deleted the key of another grid

---
 numa/numa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 469f4d2..6242437 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -57,7 +57,8 @@ numa::Numa::Numa()
 
 numa::Numa::~Numa()
 {
-	pthread_key_delete(m_ptkey);
+	if (!m_keyError)
+		pthread_key_delete(m_ptkey);
 }
 
 /**
-- 
2.43.0


From cd58f7e440d41fc710830c56f6461d37fbafb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 15/43] fix: cached grids with several levels waited for a
 reply with the wrong tag

MPIThreadCache received the dictionary entry with ENTRY_TAG while the reply
is sent with m_tagOffset+ENTRY_TAG. Every level after the first reserves
other tags, hence the first remote look-up in these levels never returned.
---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..631a6ca 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -469,7 +469,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From 9d452282483be73159c67e6846f556636a06dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 16/43] fix: nodeLocalRank failed for host names with a large
 checksum

The color passed to MPI_Comm_split has to be nonnegative, but the Adler-32
checksum of longer host names uses all 32 bits. Collisions of the remaining
31 bits are resolved by comparing the names, as before.
---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..fd33eb1 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -109,7 +109,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 	assert(mpiResult == MPI_SUCCESS);
 
 	MPI_Comm nodeComm;
-	mpiResult = MPI_Comm_split(comm, hash, rank, &nodeComm);
+	// The color must not be negative
+	mpiResult = MPI_Comm_split(comm, hash & 0x7fffffff, rank, &nodeComm);
 	assert(mpiResult == MPI_SUCCESS);
 
 	// Gather all proc names of this node to detect Adler32 collisions
-- 
2.43.0


From dd885bae323f5f849a9157066b8e7d2452f74461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 17/43] fix: negative CPU ids pinned the communication thread
 to a CPU that does not exist

---
 mpi/commthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..9d5f4be 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From fb43ae2b933e66a8654a06e885a2db33828ede0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 18/43] fix: messages for a receiver that was not yet
 registered on all processes were lost

registerReceiver returned as soon as the tag was known. A message sent by a
process that returned first was dropped by processes which had not inserted
their receiver yet, hence the sender waited forever for the reply.
---
 mpi/commthread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 9d5f4be..2eaf0fe 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -237,6 +237,11 @@ public:
 		MPI_Comm_group(comm, &detail.group);
 		m_receiver[tag] = detail;
 
+		// Other processes must not send a message before the receiver
+		// is known on all processes
+		if (MPI_Barrier(comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From ac236dc78b0de3099d94a0f65457d6a1edf96556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 19/43] fix: the communication thread leaked the MPI groups of
 its receivers

---
 mpi/commthread.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 2eaf0fe..6b95fd1 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -200,10 +200,14 @@ public:
 		m_nextTag = 0;
 		if (!m_receiver.empty()) {
 			logWarning() << "ASAGI: Not all receivers are removed correctly.";
+			for (std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.begin();
+					it != m_receiver.end(); ++it)
+				MPI_Group_free(&it->second.group);
 			m_receiver.clear();
 		}
 
-		// Free the communicator
+		// Free the group and the communicator
+		MPI_Group_free(&m_group);
 		MPI_Comm_free(&m_comm);
 	}
 
@@ -301,7 +305,11 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				commThread.m_receiver.erase(data);
+				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
+				if (it != commThread.m_receiver.end()) {
+					MPI_Group_free(&it->second.group);
+					commThread.m_receiver.erase(it);
+				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
-- 
2.43.0


From 905794a6ccdf76f8359931624678aca05c811114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 20/43] fix: data race on the receivers of the communication
 thread

The communication thread looks up and removes receivers and threads of the
application look up receivers while another grid registers or removes a
receiver.
---
 mpi/commthread.h | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6b95fd1..4ddb553 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,9 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/** Lock for {@link m_receiver} (never held during MPI communication) */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -239,7 +242,9 @@ public:
 		ReceiverDetail detail;
 		detail.recv = &receiver;
 		MPI_Comm_group(comm, &detail.group);
+		m_receiverLock.lock();
 		m_receiver[tag] = detail;
+		m_receiverLock.unlock();
 
 		// Other processes must not send a message before the receiver
 		// is known on all processes
@@ -272,17 +277,35 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * Searches a receiver
+	 *
+	 * @param[out] detail The receiver
+	 * @return False if no receiver is registered for this tag
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> lock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -305,22 +328,24 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				std::unordered_map<int, ReceiverDetail>::iterator it = commThread.m_receiver.find(data);
-				if (it != commThread.m_receiver.end()) {
-					MPI_Group_free(&it->second.group);
-					commThread.m_receiver.erase(it);
+				ReceiverDetail detail;
+				if (commThread.findReceiver(data, detail)) {
+					MPI_Group_free(&detail.group);
+					commThread.m_receiverLock.lock();
+					commThread.m_receiver.erase(data);
+					commThread.m_receiverLock.unlock();
 				}
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From d75e63aa905fda0f4299e115ea0c7a2ed093ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 21/43] fix: replies for different levels of a fully stored
 grid were mixed up

MPIThreadFull sent all blocks with tag 0 in the communicator of the grid,
but the mutex around request and reply exists once per level. Concurrent
accesses to two levels could receive the block of the other level (or fail
if the block size differs). Use a separate tag for each level, as in
MPIThreadCache.
---
 transfer/mpithreadfull.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..33f24e6 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -92,6 +92,9 @@ private:
 	/** The tag used for communication */
 	int m_tag;
 
+	/** The tag used for the replies */
+	int m_replyTag;
+
 	/** Lock send-receive pairs to avoid threading issues */
 	threads::Mutex* m_sendRecvMutex;
 
@@ -102,6 +105,7 @@ public:
 		  m_numaDomainId(0),
 		  m_comm(MPI_COMM_NULL), m_mpiType(MPI_DATATYPE_NULL),
 		  m_tag(-1),
+		  m_replyTag(-1),
 		  m_sendRecvMutex(0L)
 	{
 	}
@@ -129,7 +133,7 @@ public:
 			unsigned long blockCount,
 			unsigned long blockSize,
 			const types::Type &type,
-			const mpi::MPIComm &mpiComm,
+			mpi::MPIComm &mpiComm,
 			numa::NumaComm &numaComm)
 	{
 		m_data = data;
@@ -140,6 +144,9 @@ public:
 		m_mpiType = type.getMPIType();
 
 		if (m_numaDomainId == 0) {
+			// All levels of a grid use the same communicator
+			m_replyTag = mpiComm.reserveTags(1);
+
 			asagi::Grid::Error err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
 			if (err != asagi::Grid::SUCCESS)
@@ -152,6 +159,10 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
+		err = numaComm.broadcast(m_replyTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_sendRecvMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -175,7 +186,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_replyTag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -186,7 +197,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_replyTag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From e5d45eadbf8baeb9415401bcc45364b17053114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 22/43] fix: processes could read blocks of a fully stored grid
 before they were loaded

With NUMA support, domain 0 created the MPI window (or registered the
receiver) and other processes finished opening the grid while the other
domains were still loading their blocks from the file.
---
 grid/level/fulldist.h |  6 ++++++
 numa/numacomm.h       | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 7536f77..8227806 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -125,6 +125,12 @@ public:
 				this->typeSize() * this->totalBlockSize(),
 				cacheHandSpread);
 
+		// Other processes can access the blocks of all domains as soon as
+		// the MPI transfer class is initialized
+		err = this->numa().barrier();
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		// Initialize the MPI transfer class
 		err = m_mpiTrans.init(this->data(),
 				this->localBlockCount(), this->totalBlockSize(),
diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..df32171 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -121,6 +121,18 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Waits for all domain masters.
+	 * This is a collective operation among the NUMA masters.
+	 */
+	asagi::Grid::Error barrier()
+	{
+		if (!m_sync.barrier(totalDomains()))
+			return asagi::Grid::THREAD_ERROR;
+
+		return asagi::Grid::SUCCESS;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
-- 
2.43.0


From 372a682dfc7985f1f8d7075fe9a94cc451c3a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 23/43] fix: the cache dictionary was accessible before it was
 initialized

With several NUMA domains, domain 0 created the MPI window while other
domains were still initializing their part of the dictionary. A process that
finished opening the grid earlier could read undefined entries. In addition,
the mutexes of the dictionary were reset after the window was created, which
could release a lock held by another process. MPICache::init already
initializes them.
---
 transfer/mpicache.h    |  3 ++-
 transfer/mpiwincache.h | 10 ++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..8ac9a8c 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -116,7 +116,8 @@ protected:
 				i < blockCount * totalDictEntrySize() * (m_numaDomainId+1); i++)
 			m_dictionary[i] = -1;
 
-		return asagi::Grid::SUCCESS;
+		// Other processes may access all parts of the dictionary afterwards
+		return numaComm.barrier();
 	}
 
 	/**
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..7dede16 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -166,8 +166,11 @@ public:
 			return err;
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		// (also initializes the mutex memory)
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
@@ -219,11 +222,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Initialize the mutex memory
-		for (unsigned long i = blockCount * m_numaDomainId;
-				i < blockCount * (m_numaDomainId+1); i++)
-			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
-
 		return asagi::Grid::SUCCESS;
 	}
 
-- 
2.43.0


From 36b0da2eb0b357ed79bee5195cbc072b34c36248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 24/43] fix: cached grids registered their receivers before the
 transfer class was initialized

---
 transfer/mpithreadcache.h | 41 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 631a6ca..8e86541 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -363,8 +363,10 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
@@ -377,8 +379,26 @@ public:
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
-			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			m_tagOffset = mpiComm.reserveTags(3);
+
+			m_infoMutex = new threads::Mutex();
+			m_blockMutex = new threads::Mutex();
+		}
+
+		err = numaComm.broadcast(m_cacheManager);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		m_cacheManager[m_numaDomainId] = &cacheManager;
+
+		err = numaComm.broadcast(m_mutexes);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		// The communication thread uses the class as soon as the receivers are
+		// registered, hence everything has to be initialized now
+		if (m_numaDomainId == 0) {
+			err = mpi::CommThread::commThread
 				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
@@ -397,23 +417,8 @@ public:
 				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
 			if (err != asagi::Grid::SUCCESS)
 				return err;
-
-			m_tagOffset = mpiComm.reserveTags(3);
-
-			m_infoMutex = new threads::Mutex();
-			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
-		m_cacheManager[m_numaDomainId] = &cacheManager;
-
-		err = numaComm.broadcast(m_mutexes);
-		if (err != asagi::Grid::SUCCESS)
-			return err;
-
 		err = numaComm.broadcast(m_blockInfoTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From bc9bc049c8123960df821b7c5e1e68c4cd7b1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 25/43] fix: processes fetching blocks from each other could
 livelock with several threads

With a communication thread, a transfer fails if the remote cache is locked.
The cache is also locked while a thread waits for a block that is being
loaded. If two processes load blocks from each other, all retries failed
forever.
---
 grid/level/cachedist.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grid/level/cachedist.h b/grid/level/cachedist.h
index 7f185a4..3e26682 100644
--- a/grid/level/cachedist.h
+++ b/grid/level/cachedist.h
@@ -170,9 +170,12 @@ public:
 				// The communication thread uses error detection. Which means, a block
 				// might get deleted between startTransfer and transfer. In this case,
 				// retrying another MPI rank might be worthwhile.
+				// However, the number of retries is limited: All threads of the remote
+				// rank might (indirectly) wait for this block.
 
 				bool retry;
 				bool received = false;
+				unsigned int tries = 0;
 
 				do {
 					retry = false;
@@ -188,7 +191,7 @@ public:
 						this->incCounter(perf::Counter::MPI);
 						received = true;
 					}
-				} while (retry);
+				} while (retry && ++tries < MAX_TRIES);
 
 				if (!received)
 					this->loadBlock(index, data);
@@ -212,6 +215,10 @@ public:
 		// Free the block in the cache
 		this->cacheManager().unlock(cacheOffset);
 	}
+
+private:
+	/** Maximum number of attempts to get a block from other MPI ranks */
+	static const unsigned int MAX_TRIES = 10;
 };
 
 /** Cached distributed level with NUMA */
-- 
2.43.0


From 7af654ae130687bccce2bde42656cd7186f2ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 26/43] fix: NUMA domains could use the MPI type of a grid
 before it was created

---
 types/arraytype.h  | 8 ++------
 types/structtype.h | 7 ++-----
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 9d515be..4543485 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -94,14 +94,12 @@ public:
 
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
-		// Lock the array size
-		m_lock.lock();
+		// Lock the array size and the MPI type
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
 			m_arraySize = arraySize;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
@@ -111,8 +109,6 @@ public:
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
 		}
diff --git a/types/structtype.h b/types/structtype.h
index 14e7fd9..364e243 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -144,13 +144,12 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// Lock the size and the MPI type
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
 			m_size = size;
 
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
 			MPI_Datatype tmpType;
 
@@ -182,8 +181,6 @@ public:
 			m_types = 0L;
 #endif // ASAGI_NOMPI
 		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
-
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
 		}
-- 
2.43.0


From f0b34bac9f8eb8e769a79be700434dd963e8f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 27/43] fix: MPI types and barriers did not use the global MPI
 lock

With THREADSAFE_MPI, all MPI calls have to be serialized.
---
 mpi/mpicomm.h      | 1 +
 types/arraytype.h  | 8 +++++++-
 types/structtype.h | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..c8ebe31 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -147,6 +147,7 @@ public:
 	 */
 	void barrier() const
 	{
+		std::lock_guard<Lock> lock(mpiLock);
 		MPI_Barrier(m_comm);
 	}
 
diff --git a/types/arraytype.h b/types/arraytype.h
index 4543485..eea8e4e 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,10 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -101,6 +104,9 @@ public:
 			m_arraySize = arraySize;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
+			// Create the mpi datatype
 			// Create the mpi datatype
 			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
diff --git a/types/structtype.h b/types/structtype.h
index 364e243..63c1c65 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,10 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -151,6 +154,8 @@ public:
 			m_size = size;
 
 #ifndef ASAGI_NOMPI
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
-- 
2.43.0


From 7eab544a08358a979bee6c17a87d19969344553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 28/43] fix: deleting a replaced entry removed an entry of
 another process from the cache dictionary

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index 8ac9a8c..2c9a0d9 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -194,6 +194,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// The entry was already replaced by newer ones
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From 62856dcdc07bfbbb31075fdafd876911a503003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 29/43] fix: the value of ASAGI_INVALID_VAR_SIZE in the C
 interface did not match the C++ interface

---
 include/asagi.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..8b9de1e 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,7 +438,6 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
 	ASAGI_INVALID_VAR_SIZE
 } asagi_error;
 #endif
-- 
2.43.0


From a2dcc346f9e43895c0b6efa786c49b7197d4c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 30/43] fix: opening a grid without communication thread
 blocked all but the first NUMA domain

---
 transfer/mpithreadcache.h | 68 ++++++++++++++++++++++++---------------
 transfer/mpithreadfull.h  | 18 +++++++----
 2 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 8e86541..125cdc0 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,14 +323,17 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
-			delete [] m_cacheManager;
-
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+		if (m_numaDomainId == 0) {
+			if (m_blockInfoTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+			if (m_transfererTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+			if (m_adderTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+			if (m_deleterTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
 
+			delete [] m_cacheManager;
 			delete [] m_mutexes;
 			delete m_infoMutex;
 			delete m_blockMutex;
@@ -398,27 +401,16 @@ public:
 		// The communication thread uses the class as soon as the receivers are
 		// registered, hence everything has to be initialized now
 		if (m_numaDomainId == 0) {
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+			err = registerReceivers(mpiComm.comm());
 		}
 
+		// The other NUMA domains have to know if the registration failed
+		asagi::Grid::Error err2 = numaComm.broadcast(err);
+		if (err2 != asagi::Grid::SUCCESS)
+			return err2;
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_blockInfoTag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -608,6 +600,30 @@ public:
 	}
 
 private:
+	/**
+	 * Registers all receivers in the communication thread
+	 */
+	asagi::Grid::Error registerReceivers(MPI_Comm comm)
+	{
+		asagi::Grid::Error err = mpi::CommThread::commThread
+			.registerReceiver(comm, m_blockInfoResponder, m_blockInfoTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(comm, m_blockTransferer, m_transfererTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(comm, m_adder, m_adderTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		return mpi::CommThread::commThread
+			.registerReceiver(comm, m_deleter, m_deleterTag);
+	}
+
 	/**
 	 * Retrieves a global offset of the block
 	 *
diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 33f24e6..8dbda58 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -143,19 +143,25 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
 			// All levels of a grid use the same communicator
 			m_replyTag = mpiComm.reserveTags(1);
 
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			m_sendRecvMutex = new threads::Mutex();
+			if (err == asagi::Grid::SUCCESS)
+				m_sendRecvMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
+		// The other NUMA domains have to know if the registration failed
+		asagi::Grid::Error err2 = numaComm.broadcast(err);
+		if (err2 != asagi::Grid::SUCCESS)
+			return err2;
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From 6aaa88bbbf61142f8ced0f0fe497f2d2c58fa30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 31/43] fix: broadcast rewrote the data of the root, a race
 with the communication thread

---
 threads/sync.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/threads/sync.h b/threads/sync.h
index ec099c4..bc3e39f 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -233,7 +233,10 @@ public:
 		if (!waitBarrier(numThreads, current == root))
 			return false;
 
-		data = *static_cast<T*>(m_data);
+		// The root has the data already (writing it again is a race, if
+		// another thread, e.g. the communication thread, is using it)
+		if (current != root)
+			data = *static_cast<T*>(m_data);
 
 		return endBarrier();
 	}
-- 
2.43.0


From c408fc8c6a79435551a9651d89ed74466e4e3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 32/43] fix: NaN coordinates accessed memory outside of the
 grid

---
 grid/level/level.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index 0f725b4..16de9ea 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -359,12 +359,13 @@ protected:
 		for (int i = m_dims-1; i >= 0; i--) {
 			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
 
-			if (x < 0 || x >= m_size[i]) {
+			// Also detects NaN
+			if (!(x >= 0 && x < m_size[i])) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
-					x = 0;
-				else
+				if (x >= m_size[i])
 					x = m_size[i]-1;
+				else
+					x = 0;
 			}
 
 			index[i] = x;
-- 
2.43.0


From 3d1f6840422afa8b8cc2a0cf20777829e08c0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 33/43] fix: opening a variable without any value divided by
 zero

---
 grid/level/level.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 16de9ea..5eb4005 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -229,6 +229,9 @@ protected:
 		for (unsigned int i = 0; i < m_dims; i++) {
 			// Get dimension size
 			m_size[i] = m_inputFile->getSize(i);
+			if (m_size[i] == 0)
+				// E.g. an unlimited dimension without any entry
+				return asagi::Grid::WRONG_SIZE;
 
 			// Get offset and scaling
 			m_offset[i] = m_inputFile->getOffset(i);
-- 
2.43.0


From f1bb9b3b558ab400ce64f0eb5713558edb6aed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 34/43] fix: variables that are no coordinates but have the
 name of a dimension left the coordinates undefined

---
 io/netcdfreader.h | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 8bd0e78..060ec4c 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -144,14 +144,10 @@ public:
 		if (i >= m_dimensions)
 			return 0;
 
-		std::lock_guard<threads::Mutex> lock(netcdfLock);
-		int x;
-		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
+		double result;
+		if (!getCoordinate(i, 0, result))
 			return 0;
 
-		double result;
-		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &result);
 		return result;
 	}
 	
@@ -168,17 +164,10 @@ public:
 		if (size == 1)
 			return std::numeric_limits<double>::infinity();
 
-		std::lock_guard<threads::Mutex> lock(netcdfLock);
-		int x;
-		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
+		double first, last;
+		if (!getCoordinate(i, 0, first) || !getCoordinate(i, size - 1, last))
 			return 1;
 
-		double first, last;
-		size_t index = 0;
-		nc_get_var1_double(m_file, x, &index, &first);
-		index = size - 1;
-		nc_get_var1_double(m_file, x, &index, &last);
-	
 		return (last - first) / (size - 1);
 	}
 	
@@ -228,6 +217,25 @@ public:
 	}
 	
 private:
+	/**
+	 * Reads one value of the coordinate variable of the i-th dimension
+	 *
+	 * @return False if the dimension has no (numerical) coordinate variable
+	 */
+	bool getCoordinate(int i, size_t index, double &value) const
+	{
+		std::lock_guard<threads::Mutex> lock(netcdfLock);
+		int x, dims;
+		if (nc_inq_varid(m_file, m_names[i].c_str(), &x) != NC_NOERR)
+			return false;
+
+		// Other variables might have the name of the dimension, too
+		if (nc_inq_varndims(m_file, x, &dims) != NC_NOERR || dims != 1)
+			return false;
+
+		return nc_get_var1_double(m_file, x, &index, &value) == NC_NOERR;
+	}
+
 	/**
 	 * Reads a hyperslab from the netCDF file
 	 *
-- 
2.43.0


From 87864d936000db781af75e12eaf812425d4f196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:25 +0000
Subject: [PATCH 35/43] fix: messages to the communication thread could arrive
 after the receiver was removed

---
 mpi/commthread.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 4ddb553..77dcc39 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -283,7 +283,10 @@ public:
 		else {
 			int recvRank;
 			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
-			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
+			// Do not return before the communication thread of the receiver
+			// got the message. Otherwise, the message might arrive after
+			// the receiver was removed
+			MPI_Ssend(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
-- 
2.43.0


From 39f05481dc688853d8359f3b52020a563e116083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 36/43] fix: domains could wait forever (or miss an error) when
 only some could open the file

---
 grid/level/blocked.h     |  1 +
 grid/level/level.h       | 15 +++++++++++++++
 grid/level/passthrough.h |  1 +
 numa/numacomm.h          | 22 ++++++++++++++++++++++
 4 files changed, 39 insertions(+)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index e9e5436..f9fd3a1 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -94,6 +94,7 @@ protected:
 			grid::ValuePosition valuePos)
 	{
 		asagi::Grid::Error err = Level<Type>::open(filename, varname, valuePos);
+		err = this->syncError(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/level.h b/grid/level/level.h
index 5eb4005..3f20a82 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -384,6 +384,21 @@ protected:
 		m_inputFile = 0L;
 	}
 
+	/**
+	 * If one domain can not open the file, all domains have to give up.
+	 * Otherwise the others would wait for it.
+	 *
+	 * @param err The error in this domain
+	 * @return The same error for all domains
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err)
+	{
+		if (m_numaComm == 0L)
+			return err;
+
+		return m_numaComm->syncError(err);
+	}
+
 	/**
 	 * Used by subclasses to increment counter
 	 */
diff --git a/grid/level/passthrough.h b/grid/level/passthrough.h
index 864cf92..e07bcac 100644
--- a/grid/level/passthrough.h
+++ b/grid/level/passthrough.h
@@ -89,6 +89,7 @@ public:
 			grid::ValuePosition valuePos)
 	{
 		asagi::Grid::Error err = Level<Type>::open(filename, varname, valuePos);
+		err = this->syncError(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/numa/numacomm.h b/numa/numacomm.h
index df32171..d987895 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -133,6 +133,28 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Makes sure that all domain masters agree on an error.
+	 * This is a collective operation among the NUMA masters.
+	 *
+	 * @param err The error in this domain
+	 * @return The first error (in the order of the domains) or SUCCESS if no
+	 *  domain has an error
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err)
+	{
+		for (unsigned int i = 0; i < totalDomains(); i++) {
+			asagi::Grid::Error domainErr = err;
+			asagi::Grid::Error err2 = broadcast(domainErr, i);
+			if (err2 != asagi::Grid::SUCCESS)
+				return err2;
+			if (domainErr != asagi::Grid::SUCCESS)
+				return domainErr;
+		}
+
+		return asagi::Grid::SUCCESS;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
-- 
2.43.0


From 661c36fd7830e6c75201d9d43e06a559c9d48699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 37/43] fix: processes waited forever for a process that could
 not open the file

---
 grid/level/blocked.h |  1 +
 grid/level/level.h   | 22 ++++++++++++++++++++++
 mpi/mpicomm.h        | 18 ++++++++++++++++++
 mpi/nompicomm.h      | 10 ++++++++++
 4 files changed, 51 insertions(+)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index f9fd3a1..1398ac7 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -95,6 +95,7 @@ protected:
 	{
 		asagi::Grid::Error err = Level<Type>::open(filename, varname, valuePos);
 		err = this->syncError(err);
+		err = this->syncProcesses(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/level.h b/grid/level/level.h
index 3f20a82..c2df6d9 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -399,6 +399,28 @@ protected:
 		return m_numaComm->syncError(err);
 	}
 
+	/**
+	 * The same as {@link syncError()} but for all processes. Only required if
+	 * the processes share the level.
+	 *
+	 * @param err The error, the same in all domains of this process
+	 * @return The same error for all domains of all processes
+	 */
+	asagi::Grid::Error syncProcesses(asagi::Grid::Error err)
+	{
+		if (m_numaComm == 0L || comm().size() == 1)
+			return err;
+
+		if (numaDomainId() == 0)
+			err = comm().syncError(err);
+
+		asagi::Grid::Error err2 = m_numaComm->broadcast(err);
+		if (err2 != asagi::Grid::SUCCESS)
+			return err2;
+
+		return err;
+	}
+
 	/**
 	 * Used by subclasses to increment counter
 	 */
diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index c8ebe31..233f78a 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -151,6 +151,24 @@ public:
 		MPI_Barrier(m_comm);
 	}
 
+	/**
+	 * Makes sure that all processes agree on an error.
+	 * This is a collective operation.
+	 *
+	 * @return An error if at least one process has an error
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err) const
+	{
+		std::lock_guard<Lock> lock(mpiLock);
+
+		int error = err;
+		if (MPI_Allreduce(MPI_IN_PLACE, &error, 1, MPI_INT, MPI_MAX, m_comm)
+				!= MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		return static_cast<asagi::Grid::Error>(error);
+	}
+
 	/**
 	 * Reserves <code>num</code> consecutive tags in this communicator
 	 *
diff --git a/mpi/nompicomm.h b/mpi/nompicomm.h
index 4430edb..1eef6db 100644
--- a/mpi/nompicomm.h
+++ b/mpi/nompicomm.h
@@ -38,6 +38,8 @@
 #ifndef MPI_NOMPICOMM_H
 #define MPI_NOMPICOMM_H
 
+#include "asagi.h"
+
 namespace mpi
 {
 
@@ -76,6 +78,14 @@ public:
 	void barrier() const
 	{
 	}
+
+	/**
+	 * @return err
+	 */
+	asagi::Grid::Error syncError(asagi::Grid::Error err) const
+	{
+		return err;
+	}
 };
 
 }
-- 
2.43.0


From 13069c0344ff59257cadff34f665472ed62ecaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 38/43] fix: a grid without thread key used the undefined key
 when opened again

---
 numa/numa.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 6242437..83558a5 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -75,6 +75,10 @@ numa::Numa::~Numa()
  */
 asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNumaDomains)
 {
+	// Check if the key was created successfully
+	if (m_keyError)
+		return asagi::Grid::THREAD_ERROR;
+
 	if (m_initialized) {
 		masterThread = m_masterThreads[threadId()];
 		return asagi::Grid::SUCCESS;
@@ -141,10 +145,6 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 	if (!m_syncThreads.endBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
-	// Check if the key was created successfully
-	if (m_keyError)
-		return asagi::Grid::THREAD_ERROR;
-
 	// Finally store the thread and domain id in the pthread key
 	uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
 
-- 
2.43.0


From cbb581c795bd8647b70c6677c16fceaa6f259104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:27 +0000
Subject: [PATCH 39/43] fix: domains and processes waited forever when MPI
 could not provide memory or a window

---
 grid/level/cache.h     |  1 +
 grid/level/full.h      |  1 +
 grid/level/fulldist.h  |  2 ++
 numa/numacomm.h        | 15 +++++++++------
 transfer/mpicache.h    | 13 +++++++++++--
 transfer/mpiwincache.h | 11 ++++++++---
 transfer/mpiwinfull.h  | 18 +++++++++++++-----
 7 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/grid/level/cache.h b/grid/level/cache.h
index 52712dc..6bc0746 100644
--- a/grid/level/cache.h
+++ b/grid/level/cache.h
@@ -102,6 +102,7 @@ public:
 		err = this->numa().template allocate<Allocator>(
 				this->typeSize() * this->totalBlockSize() * cacheSize,
 				m_cache);
+		err = this->syncProcesses(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/full.h b/grid/level/full.h
index a2f794d..0ddff4c 100644
--- a/grid/level/full.h
+++ b/grid/level/full.h
@@ -101,6 +101,7 @@ public:
 		err = this->numa().template allocate<Allocator>(
 				this->typeSize() * this->totalBlockSize() * this->localBlockCount(),
 				m_data);
+		err = this->syncProcesses(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 8227806..13ec5c7 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -117,6 +117,8 @@ public:
 		err = Allocator::allocate(
 				this->typeSize() * this->totalBlockSize() * cacheSize,
 				m_cache);
+		err = this->syncError(err);
+		err = this->syncProcesses(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/numa/numacomm.h b/numa/numacomm.h
index d987895..6081802 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -165,15 +165,18 @@ public:
 	template<class Allocator, typename T>
 	asagi::Grid::Error allocate(unsigned long size, T* &data)
 	{
-		if (domainId() == 0) {
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
+		if (domainId() == 0)
 			// Allocate the memory with the master thread
-			asagi::Grid::Error err = Allocator::allocate(size * totalDomains(), data);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-		}
+			err = Allocator::allocate(size * totalDomains(), data);
+
+		// The other domains have to know if the allocation failed
+		err = syncError(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		// Broadcast the pointer to all domains
-		asagi::Grid::Error err = broadcast(data);
+		err = broadcast(data);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index 2c9a0d9..e6ac78c 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,22 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			err = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
+
+			// All processes have to know if the allocation failed
+			err = mpiComm.syncError(err);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		// The other domains as well
+		err = numaComm.syncError(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 7dede16..016668b 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -183,7 +183,7 @@ public:
 				MPI_INFO_NULL,
 				mpiComm.comm(),
 				&m_dictWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 
 			// Create the MPI mutex
 			m_mpiMutex = new mpi::Mutex();
@@ -193,15 +193,20 @@ public:
 			m_cacheWinMutex = new threads::Mutex();
 
 			// Create the window to access the cache
-			if (MPI_Win_create(cache,
+			if (err == asagi::Grid::SUCCESS && MPI_Win_create(cache,
 				m_typeSize * blockSize * rankCacheSize(),
 				m_typeSize,
 				MPI_INFO_NULL,
 				mpiComm.comm(),
 				&m_cacheWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 		}
 
+		// The other domains have to know if creating the windows failed
+		err = numaComm.syncError(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_dictWinMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b9bf6b0..2ad70c2 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -94,11 +94,13 @@ public:
 
 	virtual ~MPIWinFull()
 	{
-		if (m_numaDomainId == 0 && m_window != MPI_WIN_NULL) {
+		if (m_numaDomainId == 0) {
 			delete m_winMutex;
 
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-			MPI_Win_free(&m_window);
+			if (m_window != MPI_WIN_NULL) {
+				std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+				MPI_Win_free(&m_window);
+			}
 		}
 	}
 
@@ -123,6 +125,7 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
@@ -137,10 +140,15 @@ public:
 					MPI_INFO_NULL,
 					mpiComm.comm(),
 					&m_window) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
+		// The other domains have to know if creating the window failed
+		err = numaComm.syncError(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_winMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From ec80526e11082f30aab76ce3dd422a1f754bfec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:27 +0000
Subject: [PATCH 40/43] fix: opening a level again leaked the memory and
 windows of a failed attempt

---
 grid/simplecontainer.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 8fc43e6..f62a3e4 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -39,6 +39,8 @@
 #define GRID_SIMPLECONTAINER_H
 
 #include <deque>
+#include <new>
+#include <vector>
 
 #include "typedcontainer.h"
 
@@ -57,6 +59,9 @@ private:
 	/** All grids we control */
 	std::deque<Level> m_levels; // Never relocates (open) levels
 
+	/** Levels that could not be opened so far */
+	std::vector<bool> m_failed;
+
 public:
 	/**
 	 * @copydoc TypedContainer::TypedContainer
@@ -85,6 +90,13 @@ public:
 		if (m_levels.size() <= level)
 			m_levels.resize(level+1,
 					Level(this->comm(), this->numa(), this->type()));
+		m_failed.resize(m_levels.size(), false);
+
+		if (m_failed[level]) {
+			// Release everything the failed attempt has allocated
+			m_levels[level].~Level();
+			new (&m_levels[level]) Level(this->comm(), this->numa(), this->type());
+		}
 
 		asagi::Grid::Error err = m_levels[level].open(
 				filename,
@@ -94,6 +106,7 @@ public:
 				cacheSize,
 				cacheHandSpread,
 				this->valuePosition());
+		m_failed[level] = err != asagi::Grid::SUCCESS;
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From a18d35db60b4d1a58bb22e6686d002deec1669c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:27 +0000
Subject: [PATCH 41/43] fix: threads could access levels while another level
 was added

---
 grid/grid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index c7e34e5..36fe1d8 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -222,6 +222,11 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	if (err != asagi::Grid::SUCCESS)
 		return err;
 
+	// Other threads might still access levels that are already open
+	err = m_numa.barrier();
+	if (err != asagi::Grid::SUCCESS)
+		return err;
+
 	if (domainMaster) {
 		// Initialize the containers
 		m_resizeOnce.saveExec(*this, &Grid::initContainers);
-- 
2.43.0


From 9011a692c32c30e874b5e10714dc1afebdfd95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:33 +0000
Subject: [PATCH 42/43] fix: the tags of the communication thread ran out after
 32766 receivers

---
 mpi/commthread.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 77dcc39..4fe42f7 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -233,10 +233,29 @@ public:
 			return asagi::Grid::NOT_INITIALIZED;
 
 		// Compute the tag
-		if (MPI_Allreduce(&m_nextTag, &tag, 1, MPI_INT, MPI_MAX, comm) != MPI_SUCCESS)
-			return asagi::Grid::MPI_ERROR;
-
-		m_nextTag = tag+1;
+		int used;
+		int tries = 0;
+		do {
+			if (tries++ >= UNREG_TAG)
+				// All tags are in use
+				return asagi::Grid::MPI_ERROR;
+
+			if (MPI_Allreduce(&m_nextTag, &tag, 1, MPI_INT, MPI_MAX, comm) != MPI_SUCCESS)
+				return asagi::Grid::MPI_ERROR;
+
+			if (tag >= UNREG_TAG)
+				// Start again with the tags of receivers that were removed
+				tag = 0;
+
+			m_nextTag = tag+1;
+
+			// The tag has to be unused in all processes
+			m_receiverLock.lock();
+			used = m_receiver.count(tag);
+			m_receiverLock.unlock();
+			if (MPI_Allreduce(MPI_IN_PLACE, &used, 1, MPI_INT, MPI_LOR, comm) != MPI_SUCCESS)
+				return asagi::Grid::MPI_ERROR;
+		} while (used);
 
 		// Save the receiver
 		ReceiverDetail detail;
-- 
2.43.0


From cb8d6e9621210d9e9f5531cb7026764dcb35c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:33 +0000
Subject: [PATCH 43/43] fix: opening again failed after MPI could not create
 the data type

---
 types/arraytype.h  | 11 +++++++----
 types/structtype.h | 14 ++++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index eea8e4e..6099852 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -101,19 +101,22 @@ public:
 		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
-			m_arraySize = arraySize;
-
 #ifndef ASAGI_NOMPI
 			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 
 			// Create the mpi datatype
 			// Create the mpi datatype
-			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
+			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 #endif // ASAGI_NOMPI
+
+			// Set this last, the next check tries again if this one fails
+			m_arraySize = arraySize;
 		} else {
 			if (arraySize != m_arraySize)
 				return asagi::Grid::WRONG_SIZE;
diff --git a/types/structtype.h b/types/structtype.h
index 63c1c65..b0e4385 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -151,8 +151,6 @@ public:
 		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
-			m_size = size;
-
 #ifndef ASAGI_NOMPI
 			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
 
@@ -167,11 +165,16 @@ public:
 					&tmpType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 			if (MPI_Type_create_resized(tmpType, 0, size, &m_mpiType)
-					!= MPI_SUCCESS)
+					!= MPI_SUCCESS) {
+				MPI_Type_free(&tmpType);
 				return asagi::Grid::MPI_ERROR;
+			}
 
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				MPI_Type_free(&tmpType);
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 
 			if (MPI_Type_free(&tmpType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
@@ -185,6 +188,9 @@ public:
 			m_displacements = 0L;
 			m_types = 0L;
 #endif // ASAGI_NOMPI
+
+			// Set this last, the next check tries again if this one fails
+			m_size = size;
 		} else {
 			if (size != m_size)
 				return asagi::Grid::WRONG_SIZE;
-- 
2.43.0

