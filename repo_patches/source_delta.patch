From 78fffb896cb4dff39a23e394b4c033f6c7317c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 01/66] fix: wal: use the lowest slot lsn as the gc minimum

---
 amelie/db/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 019f238..880df27 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -50,7 +50,7 @@ wal_slots(Wal* self, uint64_t* min)
 	{
 		auto slot = list_at(WalSlot, link);
 		uint64_t lsn = atomic_u64_of(&slot->lsn);
-		if (*min < lsn)
+		if (lsn < *min)
 			*min = lsn;
 	}
 	mutex_unlock(&self->lock);
-- 
2.43.0


From b545ed7d756b7f3956429dbf0d19932bc2f0ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 02/66] fix: wal: do not truncate file offsets to 32 bits in
 eof check

---
 amelie/db/wal/wal_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 47d183e..c002851 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_write(WalFile* self, Iov* iov)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint32_t size)
 {
 	return (offset + size) > self->file.size;
 }
-- 
2.43.0


From fc9a329e5c886ab3f50b93fd6e689b24f8bacdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 03/66] fix: wal: reject records smaller than their header

---
 amelie/db/wal/wal_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index c002851..1bbada9 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -96,6 +96,8 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((Record*)(buf->start + start))->size;
+	if (unlikely(size < size_header))
+		error("wal/%" PRIu64 " (invalid record size)", self->id);
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
-- 
2.43.0


From 67fa69ed5810df41123eb0303b4efd3764c2d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 04/66] fix: wal: validate the record commands size before the
 checksum

---
 amelie/db/transaction/record.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index c23bef4..aa7744b 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -71,6 +71,8 @@ static inline bool
 record_validate(Record* self)
 {
 	auto size = self->count * sizeof(RecordCmd);
+	if (unlikely(sizeof(*self) + size > self->size))
+		return false;
 	auto crc  = runtime()->crc(0, (uint8_t*)self + sizeof(*self), size);
 	crc = runtime()->crc(crc, &self->lsn, sizeof(*self) - sizeof(self->crc));
 	return crc == self->crc;
-- 
2.43.0


From 24596e556509199c21e858c9e2141a4110cbeb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 05/66] fix: wal: skip record commands by their size

---
 amelie/db/transaction/record.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index aa7744b..34f7054 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -56,9 +56,8 @@ record_data(Record* self)
 static inline void
 record_cmd_skip(RecordCmd* self, uint8_t** pos)
 {
-	auto end = *pos + self->size;
-	while (*pos < end)
-		*pos += row_size((Row*)*pos);
+	// note: command data can be rows or a ddl operation
+	*pos += self->size;
 }
 
 static inline bool
-- 
2.43.0


From c75a03f249865a6d1eb55822126190556f506b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 06/66] fix: wal: do not drop sync and shutdown requests on
 skipped create

---
 amelie/db/wal/wal_worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index d3e40c5..3cb7c8e 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -35,9 +35,10 @@ wal_worker_main(void* arg)
 		self->pending = 0;
 		mutex_unlock(&self->lock);
 
+		// new wal is already created by a previous request
 		if (events & WAL_CREATE)
 			if (! wal_overflow(self->wal))
-				continue;
+				events &= ~(WAL_CREATE | WAL_SYNC_CREATE);
 
 		// process events
 		error_catch
-- 
2.43.0


From 5389ce6fd4b26fa776fc8e07e557f2c209383c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 07/66] fix: wal: compute the gc minimum and remove files from
 the list atomically

---
 amelie/db/wal/wal.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 880df27..1ddf897 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -41,11 +41,9 @@ wal_free(Wal* self)
 	mutex_free(&self->lock);
 }
 
-static int
-wal_slots(Wal* self, uint64_t* min)
+static void
+wal_slots_min(Wal* self, uint64_t* min)
 {
-	mutex_lock(&self->lock);
-	int count = self->slots_count;
 	list_foreach(&self->slots)
 	{
 		auto slot = list_at(WalSlot, link);
@@ -53,10 +51,29 @@ wal_slots(Wal* self, uint64_t* min)
 		if (lsn < *min)
 			*min = lsn;
 	}
+}
+
+static int
+wal_slots(Wal* self, uint64_t* min)
+{
+	mutex_lock(&self->lock);
+	int count = self->slots_count;
+	wal_slots_min(self, min);
 	mutex_unlock(&self->lock);
 	return count;
 }
 
+static int
+wal_gc_list(Wal* self, Buf* list, uint64_t min)
+{
+	// calculate min and take the files out of the list atomically
+	// to avoid race with a concurrent snapshot
+	mutex_lock(&self->lock);
+	defer(mutex_unlock, &self->lock);
+	wal_slots_min(self, &min);
+	return id_mgr_gc_between(&self->list, list, min);
+}
+
 bool
 wal_overflow(Wal* self)
 {
@@ -106,15 +123,13 @@ wal_create(Wal* self, uint64_t lsn)
 void
 wal_gc(Wal* self, uint64_t min)
 {
-	wal_slots(self, &min);
-
 	// remove wal files < min
 	Buf list;
 	buf_init(&list);
 	defer_buf(&list);
 
 	int list_count;
-	list_count = id_mgr_gc_between(&self->list, &list, min);
+	list_count = wal_gc_list(self, &list, min);
 	if (list_count > 0)
 	{
 		size_t size  = 0;
-- 
2.43.0


From eede95b23f8eecc6b26ba9650f99ad5984876a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 08/66] fix: wal: do not access files while holding the file
 list spinlock

---
 amelie/db/wal/wal.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 1ddf897..b9bad96 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -439,21 +439,24 @@ wal_snapshot(Wal* self, WalSlot* slot, Buf* data)
 	mutex_lock(&self->lock);
 	defer(mutex_unlock, &self->lock);
 
-	spinlock_lock(&self->list.lock);
-	defer(spinlock_unlock, &self->list.lock);
-
 	// create wal slot to ensure listed files exists
 	wal_slot_set(slot, 0);
 	list_append(&self->slots, &slot->link);
 	self->slots_count++;
 	slot->added = true;
 
+	// files cannot be removed until the lock is released
+	Buf list;
+	buf_init(&list);
+	defer_buf(&list);
+	auto list_count = id_mgr_copy(&self->list, &list, UINT64_MAX);
+
 	// [[path, size, mode], ...]
 	encode_array(data);
 	char path[PATH_MAX];
-	for (int i = 0; i < self->list.list_count; i++)
+	for (int i = 0; i < list_count; i++)
 	{
-		auto id = buf_u64(&self->list.list)[i];
+		auto id = buf_u64(&list)[i];
 		sfmt(path, sizeof(path), "wal/%" PRIu64, id);
 		encode_basefile(data, path);
 	}
-- 
2.43.0


From 226947f1c18d092a7ef8686559d85d1fb37e0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 09/66] fix: sequence: advance the sequence atomically on sync

---
 amelie/db/row/sequence.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index 0966637..b59f465 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -59,9 +59,16 @@ sequence_get(Sequence* self)
 static inline void
 sequence_sync(Sequence* self, uint64_t value)
 {
+	// advance atomically, the sequence can be used concurrently
 	spinlock_lock(&self->lock);
 	auto next = value + 1;
-	if (self->value < next)
-		self->value = next;
+	for (;;)
+	{
+		auto prev = sequence_get(self);
+		if (prev >= next)
+			break;
+		if (__sync_bool_compare_and_swap(&self->value, prev, next))
+			break;
+	}
 	spinlock_unlock(&self->lock);
 }
-- 
2.43.0


From a858a766b2513ab82ec075ec04c14924140477a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 10/66] fix: lock_mgr: attach the lock event before the lock is
 queued

---
 amelie/runtime/runtime/lock_mgr.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 4ed464b..c8995c3 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -100,6 +100,9 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 		rel->lock_set[lock->rel_lock]++;
 	} else
 	{
+		// attach before the lock becomes visible to the unlock
+		event_attach(&lock->event);
+
 		// add lock to the relation wait list
 		lock->waiting = true;
 		list_append(&rel->lock_wait, &lock->link);
@@ -110,11 +113,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 
 	// wait for the lock
 	if (unlikely(! pass))
-	{
-		auto event = &lock->event;
-		event_attach(event);
-		event_wait(event, -1);
-	}
+		event_wait(&lock->event, -1);
 }
 
 hot static inline Lock*
-- 
2.43.0


From c275ffae939e328ac9c7e2f372b8b4bfcc862868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 11/66] fix: lock_mgr: release reentrant locks on unlock_all

---
 amelie/runtime/runtime/global.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/global.h b/amelie/runtime/runtime/global.h
index 88eaf5a..e2b4a85 100644
--- a/amelie/runtime/runtime/global.h
+++ b/amelie/runtime/runtime/global.h
@@ -174,6 +174,11 @@ unlock_all(void)
 	// unlock all locks taken by the coroutine
 	auto locks = &am_self()->locks;
 	list_foreach_reverse_safe(locks)
-		unlock(list_at(Lock, link));
+	{
+		// drop all references
+		auto lock = list_at(Lock, link);
+		lock->refs = 1;
+		unlock(lock);
+	}
 	list_init(locks);
 }
-- 
2.43.0


From c93dd4a30e811e8eb205c06d9c2df2c78969d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 12/66] fix: rpc: wait for completion even if the coroutine is
 already cancelled

---
 amelie/runtime/base/rpc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/rpc.h b/amelie/runtime/base/rpc.h
index ae6ecc5..8584b41 100644
--- a/amelie/runtime/base/rpc.h
+++ b/amelie/runtime/base/rpc.h
@@ -58,8 +58,9 @@ rpc_send(Rpc* self, Task* task)
 static inline void
 rpc_recv(Rpc* self)
 {
+	// must wait for completion, even if already cancelled
 	cancel_pause();
-	event_wait(&self->on_complete, -1);
+	wait_event(&self->on_complete, am_self());
 	cancel_resume();
 }
 
-- 
2.43.0


From a2dea7463f71a6b9c56bc10181ad63e48f15b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 13/66] fix: run: wait for job completion even if the coroutine
 is already cancelled

---
 amelie/runtime/runtime/global.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/global.h b/amelie/runtime/runtime/global.h
index e2b4a85..d14b479 100644
--- a/amelie/runtime/runtime/global.h
+++ b/amelie/runtime/runtime/global.h
@@ -122,8 +122,9 @@ run(JobFunction main, int argc, ...)
 	event_attach(&job.on_complete);
 	job_mgr_add(&runtime()->job_mgr, &job);
 
+	// must wait for completion, even if already cancelled
 	cancel_pause();
-	event_wait(&job.on_complete, -1);
+	wait_event(&job.on_complete, am_self());
 	cancel_resume();
 
 	// rethrow on error
-- 
2.43.0


From 64d03625ca355ac643ffce3a31023171dffffcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 14/66] fix: poll: unregister the wait event when the wait is
 cancelled

---
 amelie/runtime/os/poll.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/os/poll.h b/amelie/runtime/os/poll.h
index 065cab9..eb61f91 100644
--- a/amelie/runtime/os/poll.h
+++ b/amelie/runtime/os/poll.h
@@ -42,8 +42,8 @@ poll_read(Fd* fd, int time_ms)
 	Event on_read;
 	event_init(&on_read);
 	poll_read_start(fd, &on_read);
+	defer(poll_read_stop, fd);
 	event_wait(&on_read, time_ms);
-	poll_read_stop(fd);
 
 	cancellation_point();
 }
@@ -55,6 +55,13 @@ poll_on_write_event(Fd* fd)
 	event_signal(on_write);
 }
 
+static inline void
+poll_write_stop(Fd* fd)
+{
+	auto poller = &am_task->poller;
+	poller_write(poller, fd, NULL, NULL);
+}
+
 static inline void
 poll_write(Fd* fd, int time_ms)
 {
@@ -67,8 +74,8 @@ poll_write(Fd* fd, int time_ms)
 	rc = poller_write(poller, fd, poll_on_write_event, &on_write);
 	if (unlikely(rc == -1))
 		error_system();
+	defer(poll_write_stop, fd);
 	event_wait(&on_write, time_ms);
-	poller_write(poller, fd, NULL, NULL);
 
 	cancellation_point();
 }
-- 
2.43.0


From 2fab5aa0c2a27f7a207341d38fd97bbd029b6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 15/66] fix: rpc_set: wait for all responses when cancelled

---
 amelie/runtime/base/rpc_set.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/rpc_set.h b/amelie/runtime/base/rpc_set.h
index 9d53352..9ec6c83 100644
--- a/amelie/runtime/base/rpc_set.h
+++ b/amelie/runtime/base/rpc_set.h
@@ -66,8 +66,9 @@ rpc_set_add(RpcSet* self, int order, MsgId id, void* arg)
 static inline void
 rpc_set_wait(RpcSet* self)
 {
-	// collect responses
+	// collect responses (must wait for all of them on cancel)
 	Error* error = NULL;
+	cancel_pause();
 	for (auto at = 0; at < self->set_count; at++)
 	{
 		auto rpc = rpc_set_at(self, at);
@@ -75,6 +76,7 @@ rpc_set_wait(RpcSet* self)
 		if (rpc->error.code != ERROR_NONE && !error)
 			error = &rpc->error;
 	}
+	cancel_resume();
 
 	// rethrow error
 	if (unlikely(error))
-- 
2.43.0


From 0267715d2ad5c29e4c96c4464c0bf45dbf2308eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 16/66] fix: poll: unregister the wait event when its
 registration fails half-way

---
 amelie/runtime/os/poll.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/os/poll.h b/amelie/runtime/os/poll.h
index eb61f91..aa2d6b7 100644
--- a/amelie/runtime/os/poll.h
+++ b/amelie/runtime/os/poll.h
@@ -41,8 +41,8 @@ poll_read(Fd* fd, int time_ms)
 
 	Event on_read;
 	event_init(&on_read);
-	poll_read_start(fd, &on_read);
 	defer(poll_read_stop, fd);
+	poll_read_start(fd, &on_read);
 	event_wait(&on_read, time_ms);
 
 	cancellation_point();
@@ -70,11 +70,11 @@ poll_write(Fd* fd, int time_ms)
 	auto poller = &am_task->poller;
 	Event on_write;
 	event_init(&on_write);
+	defer(poll_write_stop, fd);
 	int rc;
 	rc = poller_write(poller, fd, poll_on_write_event, &on_write);
 	if (unlikely(rc == -1))
 		error_system();
-	defer(poll_write_stop, fd);
 	event_wait(&on_write, time_ms);
 
 	cancellation_point();
-- 
2.43.0


From 876dc26e347eb9888412285d3fd921f262474f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 17/66] fix: tls_write: a closed connection is an error of the
 writer

SSL_ERROR_ZERO_RETURN was returned as 0 bytes written, for which tcp_write
retried forever without waiting.
---
 amelie/runtime/os/tls.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 2023804..7fb28cc 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -303,8 +303,6 @@ tls_write(Tls* self, void* buf, int size)
 		errno = EAGAIN;
 		return -1;
 	}
-	if (error == SSL_ERROR_ZERO_RETURN)
-		return 0;
 	tls_error(self, rc, "SSL_write()");
 	return -1;
 }
-- 
2.43.0


From a4ec3c60f85a261b9bcc7143b42039d32398ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 18/66] fix: tcp_read: do not count a retry as received bytes

tls_read returns -1 when more data is needed, which was subtracted from the
received bytes.
---
 amelie/runtime/os/tcp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/os/tcp.c b/amelie/runtime/os/tcp.c
index 2873e7b..4a61604 100644
--- a/amelie/runtime/os/tcp.c
+++ b/amelie/runtime/os/tcp.c
@@ -295,7 +295,8 @@ tcp_read(Tcp* self, Buf* buf, int size)
 		self->eof = true;
 
 	// update stats
-	atomic_u64_add(self->stat_recv, rc);
+	if (likely(rc > 0))
+		atomic_u64_add(self->stat_recv, rc);
 	return rc;
 }
 
-- 
2.43.0


From a9fea98f439483f38cd7171f1ccf6d9095c5475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 19/66] fix: file_seek_to_end: do not truncate the offset

The position was cut to 32 bits before it was compared with -1.
---
 amelie/runtime/os/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/os/file.h b/amelie/runtime/os/file.h
index d699c89..fbf0e2c 100644
--- a/amelie/runtime/os/file.h
+++ b/amelie/runtime/os/file.h
@@ -106,7 +106,7 @@ file_close(File* self)
 static inline void
 file_seek_to_end(File* self)
 {
-	int rc;
+	int64_t rc;
 	rc = vfs_seek(self->fd, self->size);
 	if (unlikely(rc == -1))
 		file_error(self, "seek");
-- 
2.43.0


From 760a41d557b5ffbaa090d016e8167b979db0de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 20/66] fix: tcp_connect: do the tls handshake when connect
 succeeds at once

A connect() that did not have to wait (unix socket) returned without creating
the tls session, and without verifying the peer.
---
 amelie/runtime/os/tcp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/os/tcp.c b/amelie/runtime/os/tcp.c
index 4a61604..09c2acd 100644
--- a/amelie/runtime/os/tcp.c
+++ b/amelie/runtime/os/tcp.c
@@ -216,7 +216,11 @@ tcp_connect(Tcp* self, struct sockaddr *addr)
 {
 	tcp_connect_begin(self, addr);
 	if (self->connected)
+	{
+		// connected at once
+		tcp_connect_fd(self);
 		return;
+	}
 	poll_write(&self->fd, -1);
 	tcp_connect_complete(self);
 }
-- 
2.43.0


From 1c3d7a563f3751d734fe65bfa646f7f028453cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 21/66] fix: tls_verify_common_name: check that the certificate
 has a common name

Without one the name was compared with an uninitialized buffer; a name with an
embedded zero byte was compared up to it only.
---
 amelie/runtime/os/tls.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 7fb28cc..2f68f2f 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -219,7 +219,10 @@ tls_verify_common_name(Tls* self, const char* name)
 			tls_error(self, 0, "X509_get_subject_name()");
 
 		char common_name[256];
-		X509_NAME_get_text_by_NID(subject_name, NID_commonName, common_name, sizeof(common_name));
+		int common_name_len;
+		common_name_len = X509_NAME_get_text_by_NID(subject_name, NID_commonName, common_name, sizeof(common_name));
+		if (common_name_len == -1 || (size_t)common_name_len != strlen(common_name))
+			tls_error(self, 0, "X509_NAME_get_text_by_NID()");
 		if (! tls_verify_name(common_name, name))
 			tls_error(self, 0, "bad common name: %s (expected %s)",
 			          common_name, name);
-- 
2.43.0


From 45f96b93c44fbbaf26f0c19195d466a0e0d43b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 22/66] fix: cursor: go on to the next branch of an object

The loops over the branches of an object never advanced.
---
 amelie/db/part/cursor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index aa96196..7fcfb2c 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -58,6 +58,7 @@ cursor_lookup(PartMgr*     self,
 				iterator_close(it);
 				return &branch_it->it;
 			}
+			branch = branch->next;
 		}
 	}
 
@@ -104,6 +105,7 @@ cursor_scan(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
@@ -154,6 +156,7 @@ cursor_scan_cross(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
-- 
2.43.0


From 85b6987498b7118f72dbfc4c5e494ff6667c1983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 23/66] fix: json_compare: an unknown type is an error

Inside an array or object it was compared with itself forever.
---
 amelie/runtime/json/json_compare.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/json/json_compare.h b/amelie/runtime/json/json_compare.h
index f49e3c1..08f863d 100644
--- a/amelie/runtime/json/json_compare.h
+++ b/amelie/runtime/json/json_compare.h
@@ -141,6 +141,9 @@ json_compare(uint8_t* a, uint8_t* b)
 			level--;
 			break;
 		}
+		default:
+			json_error_read();
+			break;
 		}
 
 	} while (level > 0);
-- 
2.43.0


From d0f4d771c705bea46d6cdc625485c814e2d6983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 24/66] fix: decode_obj: check real and null values for their
 own type

Both were accepted only if the value was a bool, and then failed to be read.
---
 amelie/runtime/json/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/decode.h b/amelie/runtime/json/decode.h
index 1d8cc15..e7f51db 100644
--- a/amelie/runtime/json/decode.h
+++ b/amelie/runtime/json/decode.h
@@ -103,7 +103,7 @@ decode_obj(Decode* self, const char* context, uint8_t** pos)
 			}
 			case DECODE_REAL:
 			{
-				if (unlikely(! json_is_bool(*pos)))
+				if (unlikely(! json_is_real(*pos)))
 					error("%s: real expected for '%s'", context,
 					      ref->key);
 				auto value = (double*)ref->value;
@@ -112,7 +112,7 @@ decode_obj(Decode* self, const char* context, uint8_t** pos)
 			}
 			case DECODE_NULL:
 			{
-				if (unlikely(! json_is_bool(*pos)))
+				if (unlikely(! json_is_null(*pos)))
 					error("%s: null expected for '%s'", context,
 					      ref->key);
 				json_read_null(pos);
-- 
2.43.0


From d5ed46673be7370f9ab295b34401fbb29f5a1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 25/66] fix: table_index_add: undo removes the index config
 that was added

The undo argument was the C library function index().
---
 amelie/db/catalog/table_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 52cc877..1c28362 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -62,7 +62,7 @@ table_index_add(Table* self, Tr* tr, IndexConfig* config)
 	table_config_index_add(self->config, config);
 
 	// update table
-	log_relation(&tr->log, &add_if, index, &self->rel);
+	log_relation(&tr->log, &add_if, config, &self->rel);
 
 	// use separate log command for create
 	// index processing
-- 
2.43.0


From d8bc82c6bf963d5331fdd6c0409404991598aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 26/66] fix: storage_drop_if_commit: keep the objects of the
 other storages

Only an empty volume can be dropped, but its commit truncated the whole
tier, deleting the objects on every other volume of it.
---
 amelie/db/catalog/table_tier.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 7c49393..bf6e085 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -308,7 +308,6 @@ storage_drop_if_commit(Log* self, LogOp* op)
 
 	auto volume = volume_mgr_find(&tier->config->volumes, &storage_name);
 	assert(volume);
-	tier_truncate(tier);
 	error_catch (
 		volume_rmdir(volume);
 	);
-- 
2.43.0


From d222aeb3ff8b32b4b1ecbc090365f386c8dc55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 27/66] fix: dropping and truncating a table ends even if a
 file cannot be removed

These run in the commit and abort handlers of a transaction, after the
operation was logged: an error there left the transaction half finished.
---
 amelie/db/part/part_mgr.c      | 4 +++-
 amelie/db/storage/volume_mgr.h | 4 +++-
 amelie/db/tier/tier.c          | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 080dbf3..b136cb5 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -103,7 +103,9 @@ part_mgr_drop(PartMgr* self)
 	{
 		auto part = list_at(Part, link);
 		part_mgr_remove(self, part);
-		id_delete(&part->id, STATE_COMPLETE);
+		error_catch (
+			id_delete(&part->id, STATE_COMPLETE);
+		);
 		part_free(part);
 	}
 	assert(! self->list_count);
diff --git a/amelie/db/storage/volume_mgr.h b/amelie/db/storage/volume_mgr.h
index 0e4abe7..b57d5a2 100644
--- a/amelie/db/storage/volume_mgr.h
+++ b/amelie/db/storage/volume_mgr.h
@@ -186,7 +186,9 @@ volume_mgr_rmdir(VolumeMgr* self)
 	list_foreach(&self->list)
 	{
 		auto volume = list_at(Volume, link);
-		volume_rmdir(volume);
+		error_catch (
+			volume_rmdir(volume);
+		);
 	}
 }
 
diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index f542478..3410894 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -65,7 +65,9 @@ tier_truncate(Tier* self)
 	{
 		auto object = list_at(Object, link);
 		tier_remove(self, object);
-		object_delete(object, STATE_COMPLETE);
+		error_catch (
+			object_delete(object, STATE_COMPLETE);
+		);
 		object_free(object);
 	}
 	self->list_count = 0;
-- 
2.43.0


From f68b101accda8fd949efcc3231a3a0be173d9970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 28/66] fix: save the current name on database and storage
 rename

The previous name is matched case-insensitively, so the name passed to
rename can differ from the stored one and abort would restore the wrong
name.
---
 amelie/db/catalog/database_mgr.c | 2 +-
 amelie/db/storage/storage_mgr.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/database_mgr.c b/amelie/db/catalog/database_mgr.c
index 71eeb97..ac68a6a 100644
--- a/amelie/db/catalog/database_mgr.c
+++ b/amelie/db/catalog/database_mgr.c
@@ -134,7 +134,7 @@ database_mgr_rename(DatabaseMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &db->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &db->config->name);
 
 	// set new name
 	database_config_set_name(db->config, name_new);
diff --git a/amelie/db/storage/storage_mgr.c b/amelie/db/storage/storage_mgr.c
index 8d9c68f..b8b30d1 100644
--- a/amelie/db/storage/storage_mgr.c
+++ b/amelie/db/storage/storage_mgr.c
@@ -137,7 +137,7 @@ storage_mgr_rename(StorageMgr* self,
 	log_relation(&tr->log, &rename_if, NULL, &storage->rel);
 
 	// save name for rollback
-	encode_string(&tr->log.data, name);
+	encode_string(&tr->log.data, &storage->config->name);
 
 	// set new name
 	storage_config_set_name(storage->config, name_new);
-- 
2.43.0


From f2fd5f0c59f93906732635723a1eae4f3dee07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 29/66] fix: restore the previous unlogged setting on abort

Abort inverted the current setting, which is wrong when the setting was
not changed by the aborted operation.
---
 amelie/db/catalog/table_mgr_alter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_mgr_alter.c b/amelie/db/catalog/table_mgr_alter.c
index da57bc7..958dd8d 100644
--- a/amelie/db/catalog/table_mgr_alter.c
+++ b/amelie/db/catalog/table_mgr_alter.c
@@ -152,7 +152,10 @@ set_unlogged_if_abort(Log* self, LogOp* op)
 {
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
-	table_set_unlogged(table, !table->config->unlogged);
+	uint8_t* pos = relation->data;
+	bool value;
+	json_read_bool(&pos, &value);
+	table_set_unlogged(table, value);
 }
 
 static LogIf set_unlogged_if =
@@ -181,6 +184,9 @@ table_mgr_set_unlogged(TableMgr* self,
 	// update table
 	log_relation(&tr->log, &set_unlogged_if, NULL, &table->rel);
 
+	// save previous value
+	encode_bool(&tr->log.data, table->config->unlogged);
+
 	// set table and partitions as unlogged
 	table_set_unlogged(table, value);
 	return true;
-- 
2.43.0


From c8a073e0fff6c5825ad723066f03b5ea71150a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 30/66] fix: keep 64-bit tier region and object sizes

---
 amelie/db/tier/tier_config.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/tier/tier_config.h b/amelie/db/tier/tier_config.h
index e1406fe..2a94652 100644
--- a/amelie/db/tier/tier_config.h
+++ b/amelie/db/tier/tier_config.h
@@ -62,13 +62,13 @@ tier_config_set_name(TierConfig* self, Str* name)
 }
 
 static inline void
-tier_config_set_region_size(TierConfig* self, int value)
+tier_config_set_region_size(TierConfig* self, int64_t value)
 {
 	self->region_size = value;
 }
 
 static inline void
-tier_config_set_object_size(TierConfig* self, int value)
+tier_config_set_object_size(TierConfig* self, int64_t value)
 {
 	self->object_size = value;
 }
-- 
2.43.0


From 922c0d8bf8e44f7152ea98c912416a973e93d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 31/66] fix: keep dropped columns dropped when a definition is
 copied

---
 amelie/db/row/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/row/column.h b/amelie/db/row/column.h
index ceefd95..28c4128 100644
--- a/amelie/db/row/column.h
+++ b/amelie/db/row/column.h
@@ -77,6 +77,7 @@ column_copy(Column* self)
 	auto copy = column_allocate();
 	column_set_name(copy, &self->name);
 	column_set_type(copy, self->type, self->type_size);
+	column_set_dropped(copy, self->dropped);
 	constraints_copy(&self->constraints, &copy->constraints);
 	return copy;
 }
-- 
2.43.0


From 3a5bebe5bf9724940a4e6382a6a1b62c51d3be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 32/66] fix: alter tier set: use the if exists flag

---
 amelie/db/catalog/catalog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index f1849a9..53c3577 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -477,8 +477,8 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 		auto table = table_mgr_find(&self->table_mgr, &db, &name, true);
 		auto config = tier_config_read(&config_pos);
 		defer(tier_config_free, config);
-		auto if_not_exists = ddl_if_not_exists(flags);
-		write = table_tier_set(table, tr, config, mask, if_not_exists);
+		auto if_exists = ddl_if_exists(flags);
+		write = table_tier_set(table, tr, config, mask, if_exists);
 		break;
 	}
 	case DDL_TIER_STORAGE_DROP:
-- 
2.43.0


From 75d1dd0e9424f6225cdf2f9f708084747e15716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 33/66] fix: recognise incomplete and snapshot partition files

id_of() skipped the dot before matching the state suffix, files named
<id>.incomplete and <id>.snapshot were never recognised nor removed.
---
 amelie/db/storage/id.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index 3f58677..4e08afa 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -79,21 +79,15 @@ id_of(const char* name, int64_t* id, int64_t* version)
 	if (! *name)
 		return STATE_COMPLETE;
 
-	// .
-	name++;
-	if (unlikely(! *name))
-		return -1;
-
-	// <version>[.]
-	if (isdigit(*name))
+	// .<version>[.]
+	if (isdigit(name[1]))
 	{
-		name = id_of_next(name, version);
+		name = id_of_next(name + 1, version);
 		if (! name)
 			return -1;
 	}
-	if (unlikely(! *name))
-		return STATE_COMPLETE;
 
+	// [.state]
 	return id_state_of(name);
 }
 
-- 
2.43.0


From 2866456a0d7935ec719e301501d4671b7f69e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 34/66] fix: object_open: cut data past the last known branch

The condition was inverted: the file was truncated only when there was
nothing to cut.
---
 amelie/db/object/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 552f5ca..70a1fd2 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -150,7 +150,7 @@ object_open(Object* self, int state)
 
 	// cut branches that are not represented in its versions id
 	// (compaction crash)
-	if (offset == self->file.size)
+	if (offset != self->file.size)
 	{
 		file_truncate(&self->file, offset);
 		if (opt_int_of(&config()->storage_sync))
-- 
2.43.0


From 71ed5838466228fdee109aa8a18e286e627a1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 35/66] fix: validate the compressed object index against its
 checksum

The checksum was computed over the empty destination buffer instead of
the data read from the file.
---
 amelie/db/object/object.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 70a1fd2..bf6e42d 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -46,9 +46,9 @@ object_free(Object* self)
 }
 
 static void
-object_validate_index(Object* self, Branch* branch)
+object_validate_index(Object* self, Branch* branch, Buf* data)
 {
-	uint32_t crc = runtime()->crc(0, branch->meta_data.start, buf_size(&branch->meta_data));
+	uint32_t crc = runtime()->crc(0, data->start, buf_size(data));
 	if (crc != branch->meta.crc_data)
 		error("object: file meta data '%s' crc mismatch",
 		      str_of(&self->file.path));
@@ -73,7 +73,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	if (! encoder_active(&encoder))
 	{
 		file_pread_buf(file, meta_data, meta->size, offset);
-		object_validate_index(self, branch);
+		object_validate_index(self, branch, meta_data);
 		return;
 	}
 
@@ -81,7 +81,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto buf = buf_create();
 	defer_buf(buf);
 	file_pread_buf(file, buf, meta->size, offset);
-	object_validate_index(self, branch);
+	object_validate_index(self, branch, buf);
 
 	// decompress index
 	buf_emplace(meta_data, meta->size_origin);
-- 
2.43.0


From bd81a5524318aba374f90a86aa4f8e84f8b6a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 36/66] fix: account for all written parts of uncompressed
 regions and index

Without compression the encoder keeps two parts, only the size of the
first one was recorded.
---
 amelie/db/object/meta_writer.h | 4 ++--
 amelie/db/storage/encoder.h    | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index ad30d9e..9fab4a7 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -90,7 +90,7 @@ meta_writer_stop(MetaWriter* self)
 	meta->magic             = META_MAGIC;
 	meta->version           = META_VERSION;
 	meta->size_origin       = meta->size;
-	meta->size              = encoder_iov(encoder)->iov_len;
+	meta->size              = encoder_iov_size(encoder);
 	meta->size_total        =
 		meta->size_regions + meta->size + sizeof(Meta);
 	meta->size_total_origin =
@@ -109,7 +109,7 @@ meta_writer_add(MetaWriter*   self,
 	assert(region->rows > 0);
 
 	// get region size
-	uint32_t size = encoder_iov(&region_writer->encoder)->iov_len;
+	uint32_t size = encoder_iov_size(&region_writer->encoder);
 
 	// calculate region crc
 	uint32_t crc = 0;
diff --git a/amelie/db/storage/encoder.h b/amelie/db/storage/encoder.h
index 1a120a6..b65508d 100644
--- a/amelie/db/storage/encoder.h
+++ b/amelie/db/storage/encoder.h
@@ -114,6 +114,12 @@ encoder_iov_count(Encoder* self)
 	return self->iov.iov_count;
 }
 
+static inline int
+encoder_iov_size(Encoder* self)
+{
+	return self->iov.size;
+}
+
 static inline uint32_t
 encoder_iov_crc(Encoder* self)
 {
-- 
2.43.0


From a84e03b96cb673c32c05a70da7cefe34f5f53c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 37/66] fix: reader_execute: do not append regions to
 previously read ones

---
 amelie/db/object/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 9aedfb7..e0bfcc4 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -60,6 +60,7 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	auto branch  = self->branch;
 	auto encoder = &self->encoder;
 	encoder_reset(encoder);
+	buf_reset(&self->buf_read);
 
 	// read region data from file
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
-- 
2.43.0


From 40f45303ad2832209942270318b2c8707ac55719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 38/66] fix: validate region checksums on read

---
 amelie/db/object/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index e0bfcc4..934dbda 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -66,6 +66,14 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
+	// validate crc
+	if (opt_int_of(&config()->storage_crc))
+	{
+		auto crc = runtime()->crc(0, self->buf_read.start, buf_size(&self->buf_read));
+		if (crc != meta_region->crc)
+			error("object: region crc mismatch");
+	}
+
 	// decrypt/decompress or read raw
 	Region* region = NULL;
 	if (encoder_active(&self->encoder))
-- 
2.43.0


From 1eece3c183bfda6667e012899c4c556f46592677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 39/66] fix: tier_open: recover object branches before adding
 it to the mapping

The mapping orders objects by their root branch.
---
 amelie/db/tier/tier.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index 3410894..67acd74 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -173,13 +173,13 @@ tier_open_volume(Tier* self, Volume* volume)
 		switch (state) {
 		case STATE_COMPLETE:
 		{
-			// add object to the tier
-			auto object = object_allocate(&id);
-			tier_add(self, object);
-
 			// recover branches
+			auto object = object_allocate(&id);
+			errdefer(object_free, object);
 			object_open(object, STATE_COMPLETE);
 
+			// add object to the tier
+			tier_add(self, object);
 			break;
 		}
 		case STATE_INCOMPLETE:
-- 
2.43.0


From b5d91e57b606a39e8f054e967968953f444bad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 40/66] fix: open empty uncompressed branches

Reading zero bytes is an error, the index of an empty branch has no data
without compression.
---
 amelie/db/object/object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index bf6e42d..be7536f 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -72,7 +72,8 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	// no compression
 	if (! encoder_active(&encoder))
 	{
-		file_pread_buf(file, meta_data, meta->size, offset);
+		if (meta->size > 0)
+			file_pread_buf(file, meta_data, meta->size, offset);
 		object_validate_index(self, branch, meta_data);
 		return;
 	}
-- 
2.43.0


From da3934431869a19e86fb9dc904f900a84352b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 41/66] fix: state_save: replace the state file atomically

---
 amelie/runtime/runtime/state.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/amelie/runtime/runtime/state.c b/amelie/runtime/runtime/state.c
index ec5d5ac..504d92d 100644
--- a/amelie/runtime/runtime/state.c
+++ b/amelie/runtime/runtime/state.c
@@ -78,31 +78,21 @@ state_save_to(State* self, const char* path)
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
+	file_open_as(&file, path, O_CREAT|O_TRUNC|O_RDWR, 0600);
 	file_write_buf(&file, &text);
+	file_sync(&file);
 }
 
 void
 state_save(State* self, const char* path)
 {
-	if (! fs_exists("%s", path))
-	{
-		state_save_to(self, path);
-		return;
-	}
-
-	// remove old saved state, if exists
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing state as a old
-	fs_rename(path, "%s.old", path);
-
-	// create state file
-	state_save_to(self, path);
+	// create new state file
+	char path_new[PATH_MAX];
+	sfmt(path_new, sizeof(path_new), "%s.incomplete", path);
+	state_save_to(self, path_new);
 
-	// remove old state file
-	fs_unlink("%s.old", path);
+	// replace existing state file
+	fs_rename(path_new, "%s", path);
 }
 
 void
-- 
2.43.0


From f9f09489c3766584f2358567f672a9b7aee829be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 42/66] fix: config_save: do not keep the tail of an older file

---
 amelie/runtime/runtime/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/config.c b/amelie/runtime/runtime/config.c
index 14b83ba..214b1b2 100644
--- a/amelie/runtime/runtime/config.c
+++ b/amelie/runtime/runtime/config.c
@@ -98,7 +98,7 @@ config_save(Config* self, const char* path)
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0644);
+	file_open_as(&file, path, O_CREAT|O_TRUNC|O_RDWR, 0644);
 	file_write_buf(&file, &text);
 }
 
-- 
2.43.0


From 52da7ed218d649634608de0565b5e98e5ea7df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 43/66] fix: auth: do not accept a cached digest for another
 token

---
 amelie/server/auth/auth.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 5487726..1723bb7 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -49,8 +49,11 @@ auth_run(Auth* self, Str* token)
 
 	int64_t now = time_ms() / 1000;
 
-	// check auth cache, if the digest is already authenticated
-	auto user_ref = auth_cache_find(&self->cache, &jwt->digest);
+	// check auth cache, if the token is already authenticated
+	//
+	// the key is the whole token, since the digest alone does not identify
+	// the header and the payload it was validated for
+	auto user_ref = auth_cache_find(&self->cache, token);
 	if (user_ref)
 	{
 		// ensure cached token has not expired
@@ -94,8 +97,8 @@ auth_run(Auth* self, Str* token)
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-	// add user and token digest to the cache
-	auth_cache_add(&self->cache, user, &jwt->digest, exp);
+	// add user and token to the cache
+	auth_cache_add(&self->cache, user, token, exp);
 	return user;
 }
 
-- 
2.43.0


From a79735dd78db0c76db1858839c99b2b5f967893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 44/66] fix: jwt: refuse an empty secret and check the digest
 was computed

---
 amelie/server/auth/jwt_decode.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/jwt_decode.c b/amelie/server/auth/jwt_decode.c
index 4075dc8..e3928d5 100644
--- a/amelie/server/auth/jwt_decode.c
+++ b/amelie/server/auth/jwt_decode.c
@@ -166,12 +166,17 @@ jwt_decode_validate(JwtDecode* self, Str* secret)
 	if (unlikely(buf_size(&self->data) != 32))
 		error("jwt: digest has unexpected size");
 
+	// user without a secret cannot authenticate
+	if (unlikely(str_empty(secret)))
+		error("jwt: user secret is not set");
+
 	// HMACSHA256
 	uint8_t digest[32];
-	HMAC(EVP_sha256(), str_of(secret), str_size(secret),
-	     str_u8(&self->digest_origin),
-	     str_size(&self->digest_origin),
-	     digest, NULL);
+	if (! HMAC(EVP_sha256(), str_of(secret), str_size(secret),
+	           str_u8(&self->digest_origin),
+	           str_size(&self->digest_origin),
+	           digest, NULL))
+		error("jwt: failed to compute digest");
 
 	if (memcmp(self->data.start, digest, 32) != 0)
 		error("jwt: digest mismatch");
-- 
2.43.0


From 67e80569cdeed6cb738a38774a55c048d6365c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 45/66] fix: client: use tls again after reconnect

---
 amelie/server/client/client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amelie/server/client/client.c b/amelie/server/client/client.c
index 81c3847..f697ffa 100644
--- a/amelie/server/client/client.c
+++ b/amelie/server/client/client.c
@@ -152,8 +152,11 @@ client_connect_to(Client* self, Str* host, int port)
 			                opt_string_of(&endpoint->tls_capath),
 			                opt_string_of(&endpoint->tls_server));
 			tls_context_create(&self->tls_context);
-			tcp_set_tls(&self->tcp, &self->tls_context);
 		}
+
+		// closing a connection unsets the context
+		if (! tls_is_set(&self->tcp.tls))
+			tcp_set_tls(&self->tcp, &self->tls_context);
 	}
 
 	// connect
-- 
2.43.0


From 14302c5e2296d65971790232b4171f87b6672cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 46/66] fix: client: closing a reset connection must not fail

---
 amelie/server/client/client.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amelie/server/client/client.c b/amelie/server/client/client.c
index f697ffa..b41124a 100644
--- a/amelie/server/client/client.c
+++ b/amelie/server/client/client.c
@@ -201,9 +201,13 @@ client_close(Client* self)
 	{
 		if (self->accepted)
 		{
-			char addr[128];
-			tcp_getpeername(&self->tcp, addr, sizeof(addr));
-			info("disconnected from %s", addr);
+			// peer name is not available after connection reset
+			error_catch
+			(
+				char addr[128];
+				tcp_getpeername(&self->tcp, addr, sizeof(addr));
+				info("disconnected from %s", addr);
+			);
 		}
 		else {
 			auto endpoint = self->endpoint;
-- 
2.43.0


From 8ebab3a7121bffa4d6cf93c017542d361763506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 47/66] fix: uri: do not parse the option an argument can
 replace

---
 amelie/server/http/uri.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index bbf8c3e..ae2f06b 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -350,8 +350,14 @@ uri_parse(Endpoint* endpoint, Str* spec)
 {
 	// set uri
 	opt_string_set(&endpoint->uri, spec);
+
+	// parse a copy, since arguments can replace any endpoint option
+	Str uri;
+	str_init(&uri);
+	defer(str_free, &uri);
+	str_copy(&uri, spec);
 	Uri self = {
-		.pos      = opt_string_of(&endpoint->uri)->pos,
+		.pos      = str_of(&uri),
 		.endpoint = endpoint
 	};
 
@@ -382,8 +388,14 @@ uri_parse_endpoint(Endpoint* endpoint, Str* spec)
 
 	// set uri
 	opt_string_set(&endpoint->uri, spec);
+
+	// parse a copy, since arguments can replace any endpoint option
+	Str uri;
+	str_init(&uri);
+	defer(str_free, &uri);
+	str_copy(&uri, spec);
 	Uri self = {
-		.pos      = opt_string_of(&endpoint->uri)->pos,
+		.pos      = str_of(&uri),
 		.endpoint = endpoint
 	};
 
-- 
2.43.0


From 0e649ec8ff7ed502fab04bf83d146eaf4f0b0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:16 +0000
Subject: [PATCH 48/66] fix: heap: refuse rows that do not fit a page

---
 amelie/db/heap/heap.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 4dc8868..c10710f 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -194,8 +194,13 @@ heap_add(Heap* self, int size)
 	else
 		heap = self;
 
-	// match bucket by size
-	auto bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	// match bucket by size (bucket must fit a single page)
+	HeapBucket* bucket = NULL;
+	int size_page = heap->page_mgr.page_size - sizeof(PageHeader);
+	if (likely(size < size_page))
+		bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	if (unlikely(!bucket || bucket->size > (uint64_t)size_page))
+		error("row size %d exceeds the page size", size);
 
 	// get chunk from the free list
 	HeapChunk* chunk;
-- 
2.43.0


From a5d3871f01420969d12bbae600f9b0b28064f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 49/66] fix: row: row_data_size added the size of the index
 instead of subtracting it

---
 amelie/db/row/row.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/row/row.h b/amelie/db/row/row.h
index 9da62e4..e7a7d66 100644
--- a/amelie/db/row/row.h
+++ b/amelie/db/row/row.h
@@ -81,7 +81,7 @@ row_data(Row* self, int columns)
 always_inline hot static inline uint32_t
 row_data_size(Row* self, int columns)
 {
-	return row_size(self) - sizeof(Row) +
+	return row_size(self) - sizeof(Row) -
 	       ((1 + columns) * (self->size_factor + 1));
 }
 
-- 
2.43.0


From db06eb6766c01b3dbfbf2dde17451c2527826803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:20 +0000
Subject: [PATCH 50/66] fix: json: store a real with single precision only when
 it is the same number

---
 amelie/runtime/json/json.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/json.h b/amelie/runtime/json/json.h
index f2430c6..9f71913 100644
--- a/amelie/runtime/json/json.h
+++ b/amelie/runtime/json/json.h
@@ -400,10 +400,18 @@ json_is_bool(uint8_t* data)
 }
 
 // real
+always_inline hot static inline bool
+json_is_real32(double value)
+{
+	// true only if the value is the same with single precision
+	return value >= FLT_MIN && value <= FLT_MAX &&
+	       (double)(float)value == value;
+}
+
 always_inline hot static inline int
 json_size_real(double value)
 {
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_is_real32(value))
 		return json_size_type() + sizeof(float);
 	return json_size_type() + sizeof(double);
 }
@@ -437,7 +445,7 @@ always_inline hot static inline void
 json_write_real(uint8_t** pos, double value)
 {
 	uint8_t* data = *pos;
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_is_real32(value))
 	{
 		*data = JSON_REAL32;
 		*(float*)(data + json_size_type()) = value;
-- 
2.43.0


From 9be1b1da8af7342aca7351ff4822b2070677c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:17 +0000
Subject: [PATCH 51/66] fix: compare keys by sign when searching a tree page
 for write

---
 amelie/db/index/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/tree.c b/amelie/db/index/tree.c
index 7af0a15..f66a069 100644
--- a/amelie/db/index/tree.c
+++ b/amelie/db/index/tree.c
@@ -91,7 +91,7 @@ tree_search_page_for_write(Tree*        self,
 	*page_rel = tree_find(&self->tree, self, key, page_ref);
 	assert(*page_ref != NULL);
 	TreePage* page = tree_of(*page_ref);
-	if (*page_rel == 1)
+	if (*page_rel > 0)
 	{
 		auto prev = rbtree_prev(&self->tree, *page_ref);
 		if (prev)
-- 
2.43.0


From 060acc6dec5ce63c9726ef58bfd6967dda384b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:20 +0000
Subject: [PATCH 52/66] fix: compare keys by sign in the tree merge iterator

---
 amelie/db/index/index_tree_merge.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/amelie/db/index/index_tree_merge.h b/amelie/db/index/index_tree_merge.h
index d917966..4b212c8 100644
--- a/amelie/db/index/index_tree_merge.h
+++ b/amelie/db/index/index_tree_merge.h
@@ -53,16 +53,10 @@ index_tree_merge_step(IndexTreeMerge* self)
 			continue;
 		}
 
-		auto rc = compare(current->tree->keys, min, row);
-		switch (rc) {
-		case 0:
-			break;
-		case 1:
+		if (compare(current->tree->keys, min, row) > 0)
+		{
 			min_iterator = current;
 			min = row;
-			break;
-		case -1:
-			break;
 		}
 	}
 
-- 
2.43.0


From b87c63e45ae73246f3124418dd76d2bca58de6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:22 +0000
Subject: [PATCH 53/66] fix: visit every partition in the hash merge iterator

---
 amelie/db/index/index_hash_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/index_hash_merge.h b/amelie/db/index/index_hash_merge.h
index 4d65070..c4b2adc 100644
--- a/amelie/db/index/index_hash_merge.h
+++ b/amelie/db/index/index_hash_merge.h
@@ -81,7 +81,7 @@ index_hash_merge_next(Iterator* arg)
 	for (;;)
 	{
 		self->current_it_order++;
-		if (self->current_it_order < self->list_count)
+		if (self->current_it_order >= self->list_count)
 			break;
 		auto at = &list[self->current_it_order];
 		if (hash_iterator_has(at))
-- 
2.43.0


From af471f51027365d2adc9e3c3c1cb5aa8aeb3aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:25 +0000
Subject: [PATCH 54/66] fix: continue with the next page when the key is past a
 page

---
 amelie/db/index/tree_iterator.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/amelie/db/index/tree_iterator.h b/amelie/db/index/tree_iterator.h
index 1fdf396..bf1a122 100644
--- a/amelie/db/index/tree_iterator.h
+++ b/amelie/db/index/tree_iterator.h
@@ -38,9 +38,14 @@ tree_iterator_open(TreeIterator* self, Row* key)
 	self->page_pos = pos.page_pos;
 	if (self->page_pos >= self->page->keys_count)
 	{
+		// the key is greater than every row of the page, continue
+		// with the first row of the next one
+		auto next = rbtree_next(&self->tree->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, TreePage, node);
 	}
 	self->current = self->page->rows[self->page_pos];
 	return match;
@@ -49,10 +54,10 @@ tree_iterator_open(TreeIterator* self, Row* key)
 static inline void
 tree_iterator_open_at(TreeIterator* self, TreePos* pos)
 {
-	self->current  = NULL;
-	self->page     = pos->page;
-	self->page_pos = pos->page_pos;
-	self->current  = self->page->rows[self->page_pos];
+	self->page         = pos->page;
+	self->page_pos     = pos->page_pos;
+	self->repositioned = false;
+	self->current      = self->page->rows[self->page_pos];
 }
 
 static inline bool
-- 
2.43.0


From f7d7e6da2614ac0e3b5072cc3ac6817b608dc6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:28 +0000
Subject: [PATCH 55/66] fix: search past deleted slots before adding a row to a
 hash store

---
 amelie/db/index/hash_store.h | 37 ++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 8fea624..15aa1af 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -64,16 +64,23 @@ hash_store_set(HashStore* self, Row* key)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t slot  = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
-		if (!ref || ref == HT_DELETED)
+		if (! ref)
 		{
-			self->rows[pos] = key;
-			self->count++;
-			return NULL;
+			if (slot == UINT64_MAX)
+				slot = pos;
+			break;
 		}
 
+		if (ref == HT_DELETED)
+		{
+			// the key can still follow, keep the first deleted slot
+			if (slot == UINT64_MAX)
+				slot = pos;
+		} else
 		if (! compare(self->keys, ref, key))
 		{
 			self->rows[pos] = key;
@@ -83,8 +90,12 @@ hash_store_set(HashStore* self, Row* key)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
-	return false;
+	if (unlikely(slot == UINT64_MAX))
+		error("hashtable overflow");
+
+	self->rows[slot] = key;
+	self->count++;
+	return NULL;
 }
 
 hot static inline Row*
@@ -119,17 +130,20 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t slot  = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
 		if (! ref)
 		{
-			*at = pos;
-			return NULL;
+			if (slot == UINT64_MAX)
+				slot = pos;
+			break;
 		}
 		if (ref == HT_DELETED)
 		{
-			*at = pos;
+			if (slot == UINT64_MAX)
+				slot = pos;
 		} else
 		{
 			if (! compare(self->keys, ref, key))
@@ -142,7 +156,10 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
+	if (unlikely(slot == UINT64_MAX))
+		error("hashtable overflow");
+
+	*at = slot;
 	return NULL;
 }
 
-- 
2.43.0


From 3585afa50592894920725b86e31cdbdf85f4487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:31 +0000
Subject: [PATCH 56/66] fix: keep probe chains during rehash and report a valid
 position

---
 amelie/db/index/hash.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3802f17..6000f37 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -78,7 +78,8 @@ hash_rehash(Hash* self)
 			continue;
 		}
 		hash_store_set(self->current, ref);
-		prev->rows[self->rehashing_pos] = NULL;
+		// keep rows that follow reachable
+		prev->rows[self->rehashing_pos] = HT_DELETED;
 		prev->count--;
 
 		self->rehashing_pos++;
@@ -117,6 +118,11 @@ hash_set(Hash* self, Row* key)
 hot static inline bool
 hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 {
+	// start rehashing before the search, since it changes the table
+	// the position belongs to
+	if (!self->rehashing && hash_store_is_full(self->current))
+		hash_rehash_start(self);
+
 	Row* prev = NULL;
 	if (self->rehashing)
 	{
@@ -131,7 +137,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			{
 				// move to the current
 				self->current->rows[current_pos] = prev;
-				self->prev->rows[prev_pos] = NULL;
+				self->prev->rows[prev_pos] = HT_DELETED;
 				self->prev->count--;
 				self->current->count++;
 			}
@@ -157,11 +163,6 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 		}
 
 		*pos = current_pos;
-		if (hash_store_is_full(self->current))
-		{
-			hash_rehash_start(self);
-			hash_rehash(self);
-		}
 	}
 
 	return prev != NULL;
-- 
2.43.0


From 3efd3e95044f06f05ddea46856f661ec0119b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:03 +0000
Subject: [PATCH 57/66] fix: release the file object of a truncated log

---
 amelie/db/wal/wal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index b9bad96..8118b9f 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -211,6 +211,7 @@ wal_truncate(Wal* self, uint64_t lsn)
 	info("wal: truncate wal (%" PRIu64 " lsn)", lsn);
 
 	auto file = wal_file_allocate(id);
+	defer(wal_file_free, file);
 	defer(wal_file_close, file);
 	wal_file_open(file);
 
-- 
2.43.0


From 86d06e39f51b041b2309fb0d0537de79075229d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:03 +0000
Subject: [PATCH 58/66] fix: release the buffer when a load has no data left

---
 amelie/runtime/lib/load.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/lib/load.c b/amelie/runtime/lib/load.c
index 9c3b054..2409b69 100644
--- a/amelie/runtime/lib/load.c
+++ b/amelie/runtime/lib/load.c
@@ -147,7 +147,10 @@ load_read(Load* self, int* count)
 		{
 			// done (all data read)
 			if (buf_empty(buf))
+			{
+				buf_free(buf);
 				return NULL;
+			}
 
 			// done (with data)
 			break;
-- 
2.43.0


From 681ea34e1051b3aaf98a489508ff760f0509de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:03 +0000
Subject: [PATCH 59/66] fix: release the node of an expired token

---
 amelie/server/auth/auth_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/server/auth/auth_cache.c b/amelie/server/auth/auth_cache.c
index 357b074..96f9895 100644
--- a/amelie/server/auth/auth_cache.c
+++ b/amelie/server/auth/auth_cache.c
@@ -78,6 +78,7 @@ void
 auth_cache_del(AuthCache* self, AuthCacheNode* node)
 {
 	hashtable_delete(&self->ht, &node->node);
+	auth_cache_node_free(node);
 }
 
 hot static inline bool
-- 
2.43.0


From b10a7e1cf16c78974d80035784baa969a6404f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 60/66] fix: release the storages of a table without partitions

---
 amelie/db/part/part_mgr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index b136cb5..c15d2ba 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -97,7 +97,10 @@ void
 part_mgr_drop(PartMgr* self)
 {
 	if (! self->list_count)
+	{
+		volume_mgr_unref(&self->config->volumes);
 		return;
+	}
 
 	list_foreach_safe(&self->list)
 	{
-- 
2.43.0


From ba5d38253c122c46ea1d3038831a3248533d0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 61/66] fix: do not read behind the base64 tables

---
 amelie/runtime/lib/base64.c    | 2 ++
 amelie/runtime/lib/base64url.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 6cf47fb..214d95d 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -105,6 +105,8 @@ base64_decode(Buf* self, Str* str)
 		if (*pos == '=')
 			break;
 
+		if (unlikely(*pos >= sizeof(base64_decode_table)))
+			goto error;
 		auto c = base64_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5d4d5e3..5ab824f 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -130,6 +130,8 @@ base64url_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
+		if (unlikely(*pos >= sizeof(base64url_decode_table)))
+			goto error;
 		auto c = base64url_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
-- 
2.43.0


From f67b06b9422c28068d92546765c62c52975c234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 62/66] fix: refuse http content that does not fit a buffer

---
 amelie/server/http/http.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 5d77933..84526c6 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -238,6 +238,8 @@ http_read_content_limit(Http* self, Readahead* readahead, Buf* content,
 
 	if (unlikely((uint64_t)len >= limit))
 		return true;
+	if (unlikely(len >= INT_MAX))
+		error("HTTP content size limit exceeded");
 
 	buf_reserve(content, len + 1);
 	for (;;)
-- 
2.43.0


From 4dbffeaa55cd55a3ac70cfaf38685128171a1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 63/66] fix: do not read behind a timestamp that starts with
 spaces

---
 amelie/runtime/lib/timestamp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index ed805c7..a8d1b14 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -55,7 +55,7 @@ timestamp_parse(Timestamp* self, Str* str)
 	// whitespace
 	while (pos < end && isspace(*pos))
 		pos++;
-	if (pos == end)
+	if (unlikely((end - pos) < 19))
 		goto error;
 
 	// year
-- 
2.43.0


From 6913a38b85442fadb96309ba8e5b94053b790ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 64/66] fix: keep the symbol of an unknown escape sequence

---
 amelie/runtime/json/escape.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 521db14..f582490 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -61,6 +61,9 @@ unescape_str(Buf* self, Str* string)
 		case 'v':
 			*result = '\v';
 			break;
+		default:
+			*result = *pos;
+			break;
 		}
 		slash = false;
 		result++;
-- 
2.43.0


From 347f9f5a586ecbb2b0fd6d315daca59764fa68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 65/66] fix: read a real number within the JSON text

---
 amelie/runtime/json/json_parser.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 32c72de..d667cab 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -165,12 +165,25 @@ json_integer_read(Json* self, int64_t* value, double* real)
 	return true;
 
 read_as_double:
+	// the text is not zero-terminated
+	while (self->pos < self->end && (isdigit(*self->pos) ||
+	       *self->pos == '.' ||
+	       *self->pos == 'e' || *self->pos == 'E' ||
+	       *self->pos == '+' || *self->pos == '-'))
+		self->pos++;
+	char number[512];
+	auto size = self->pos - start;
+	if (unlikely(size >= (int)sizeof(number)))
+		error("bad JSON float number");
+	memcpy(number, start, size);
+	number[size] = 0;
+
 	errno = 0;
 	char* end = NULL;
-	*real = strtod(start, &end);
+	*real = strtod(number, &end);
 	if (errno == ERANGE)
 		error("bad JSON float number");
-	self->pos = end;
+	self->pos = start + (end - number);
 	if (minus)
 		*real = -(*real);
 	return false;
-- 
2.43.0


From e9724a1af25831a21b9337d4b50a4f4362ff730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:37 +0000
Subject: [PATCH 66/66] fix: do not leave a log file before its last record was
 read

---
 amelie/db/wal/wal.c        | 2 +-
 amelie/db/wal/wal_cursor.c | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 8118b9f..0c300df 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -103,10 +103,10 @@ wal_create(Wal* self, uint64_t lsn)
 		}
 		rethrow();
 	}
-	id_mgr_add(&self->list, lsn);
 
 	// add to the list and set as current
 	mutex_lock(&self->lock);
+	id_mgr_add(&self->list, lsn);
 	auto file_prev = self->current;
 	self->current = file;
 	mutex_unlock(&self->lock);
diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index 7c31223..fadcfbe 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -132,6 +132,10 @@ wal_cursor_read(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// the file could be written before the next one was created
+		if (file_update_size(&file->file))
+			continue;
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
-- 
2.43.0

