From 4bcc07f1fcb8b8240ed74dd301e75ae7d3087468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 01/24] fix: write_dec_unsafe negated the most negative long
 long (undefined signed overflow)

---
 src/include/fn_fmt.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..b66b1c9 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -82,8 +82,7 @@ namespace FNLog
         if (number < 0)
         {
             *dst = '-';
-            number = -number;
-            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, (unsigned long long) number);
+            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, 0ULL - (unsigned long long) number);
         }
         return write_dec_unsafe<WIDE>(dst, (unsigned long long) number);
     }
-- 
2.43.0


From 207fbc4962700690f6499a604d782c7acf085189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 02/24] fix: write_hex_unsafe and write_bin_unsafe counted
 leading zeros of 0 (undefined)

---
 src/include/fn_fmt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index b66b1c9..a9ceed3 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -159,7 +159,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = number ? (int)sizeof(number) * 8 - __builtin_clzll(number) : 1;
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -224,7 +224,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = number ? (int)sizeof(number) * 8 - __builtin_clzll(number) : 1;
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
-- 
2.43.0


From efecc7b5515652f621135c1f867968f93c7037b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 03/24] fix: write_bin_unsafe left the zero padding of its
 minimum width unwritten

---
 src/include/fn_fmt.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index a9ceed3..1d0ea8a 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -242,6 +242,10 @@ namespace FNLog
             *(dst + cur_wide - 1) = lut[m2];
             cur_wide--;
         } while (number);
+        while (cur_wide-- != 0)
+        {
+            *(dst + cur_wide) = '0';
+        }
         return real_wide;
     }
 
-- 
2.43.0


From 4a6e21a7d0c60d787e5da0865748be83826e75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 04/24] fix: accessors and StopLogger dereferenced the missing
 storage of a logger that was never loaded

---
 src/include/fn_core.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..e87b3b5 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -169,6 +169,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -263,7 +268,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -277,7 +282,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -291,7 +296,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -309,7 +314,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -327,7 +332,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -345,6 +350,10 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -354,6 +363,10 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From 5e411fb02d87c5e5dda923749a2d67cb76141dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 05/24] fix: batch setters wrote past the settings for an
 out-of-range field number

---
 src/include/fn_core.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index e87b3b5..0a80e98 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -350,7 +350,7 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
-        if (logger.shm_ == NULL)
+        if (logger.shm_ == NULL || cce >= CHANNEL_CFG_MAX_ID)
         {
             return;
         }
@@ -363,7 +363,7 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
-        if (logger.shm_ == NULL)
+        if (logger.shm_ == NULL || dce >= DEVICE_CFG_MAX_ID)
         {
             return;
         }
-- 
2.43.0


From 2fdf1ccbc5f767951b8f3ca016dfe0dd7f79638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 06/24] fix: a record received over UDP kept the tail of an
 earlier longer one behind its text (no terminator)

---
 src/include/fn_channel.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..2986c01 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -244,6 +244,11 @@ namespace FNLog
                     {
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_len_ = LogData::LOG_SIZE - 1;
+                    }
+                    else
+                    {
+                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
                     }
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
-- 
2.43.0


From bdc51b8184dd1142151c604678ca8471cebcf9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 07/24] fix: the screen device cut a record at the first NUL
 byte of its text

---
 src/include/fn_out_screen_device.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_out_screen_device.h b/src/include/fn_out_screen_device.h
index 646bea2..12f8357 100644
--- a/src/include/fn_out_screen_device.h
+++ b/src/include/fn_out_screen_device.h
@@ -28,7 +28,7 @@ namespace FNLog
         int priority = log.priority_;
         if (log.priority_ < PRIORITY_INFO)
         {
-            printf("%s", log.content_);
+            fwrite(log.content_, 1, (size_t)log.content_len_, stdout);
             return;
         }
         if (priority >= PRIORITY_MAX)
@@ -36,25 +36,27 @@ namespace FNLog
             priority = PRIORITY_ALARM;
         }
 #ifndef WIN32
-        printf("%s%s\e[0m", PRIORITY_RENDER[priority].scolor_, log.content_);
+        printf("%s", PRIORITY_RENDER[priority].scolor_);
+        fwrite(log.content_, 1, (size_t)log.content_len_, stdout);
+        printf("\e[0m");
 #else
 
         HANDLE sc_handle = ::GetStdHandle(STD_OUTPUT_HANDLE);
         if (sc_handle == INVALID_HANDLE_VALUE)
         {
-            printf("%s", log.content_);
+            fwrite(log.content_, 1, (size_t)log.content_len_, stdout);
             return;
         }
         CONSOLE_SCREEN_BUFFER_INFO old_info;
         if (!GetConsoleScreenBufferInfo(sc_handle, &old_info))
         {
-            printf("%s", log.content_);
+            fwrite(log.content_, 1, (size_t)log.content_len_, stdout);
             return;
         }
         else
         {
             SetConsoleTextAttribute(sc_handle, (old_info.wAttributes& ~7u) |PRIORITY_RENDER[priority].color_);
-            printf("%s", log.content_);
+            fwrite(log.content_, 1, (size_t)log.content_len_, stdout);
             SetConsoleTextAttribute(sc_handle, old_info.wAttributes);
         }
 #endif
-- 
2.43.0


From d066a87986792e97628cceac5a262d6b95496714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:00 +0000
Subject: [PATCH 08/24] fix: StopLogger left stale marks on slots held but not
 published

---
 src/include/fn_core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 0a80e98..d8ba260 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -153,7 +153,7 @@ namespace FNLog
         {
             RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
 
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
+            while (ring_buffer.read_idx_ != ring_buffer.hold_idx_)
             {
                 ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
                 ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
-- 
2.43.0


From 2aee83224c5f468ae2bc9456fe0a73834e3a761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:00 +0000
Subject: [PATCH 09/24] fix: StartLogger threw and stayed in INITING when an
 output thread could not be created

---
 src/include/fn_core.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index d8ba260..04609ee 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -41,7 +41,14 @@ namespace FNLog
                 break;
             case CHANNEL_ASYNC:
             {
-                thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                try
+                {
+                    thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                }
+                catch (const std::exception&)
+                {
+                    //no thread; reported below
+                }
                 if (!thd.joinable())
                 {
                     printf("StartChannels %s", "start async log thread has error.\n");
-- 
2.43.0


From cd50895864bf439947ad1ea3f1f64949b57e4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 10/24] fix: StartLogger hung when an output thread started
 after the start-up timeout

---
 src/include/fn_core.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 04609ee..c5811a4 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -96,6 +96,11 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
+                    //a thread that starts late has not reported yet; it ends only on a request it can see
+                    while (channel.channel_state_ == CHANNEL_STATE_NULL)
+                    {
+                        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+                    }
                     if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
                     {
                         channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
-- 
2.43.0


From 4a56771385ba91e8de0e5d15dac78dc5b8b8ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:18 +0000
Subject: [PATCH 11/24] fix: StopLogger deadlocked with an output thread that
 was applying a changed configuration

---
 src/include/fn_load.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..9b84825 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -323,7 +323,12 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
+        //never wait here: StopLogger joins this thread while it holds the lock
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock())
+        {
+            return E_LOGGER_IN_USE;
+        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
-- 
2.43.0


From 15c537d6c00e7f4d1f87f56bb7f91061f25c45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 12/24] fix: a hot update from an empty or half-written file
 reset the first channel

---
 src/include/fn_load.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 9b84825..c92d306 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -321,6 +321,11 @@ namespace FNLog
         {
             return ret;
         }
+        //an empty or half written file has no such channel
+        if (ls->channel_size_ <= channel_id)
+        {
+            return E_VERSION_MISMATCH;
+        }
 
 
         //never wait here: StopLogger joins this thread while it holds the lock
-- 
2.43.0


From bd96c7ab1dccaff1dbc4a95e635bf67288424a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 13/24] fix: validate a shared queue completely before
 repairing it

---
 src/include/fn_load.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index c92d306..7b91ceb 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -90,19 +90,22 @@ namespace FNLog
                 logger.shm_key_, shm->shm_id_, idx, shm->shm_size_, (int)sizeof(SHMLogger));
             return E_SHM_VERSION_WRONG;
         }
+        if (shm->channel_size_ > SHMLogger::MAX_CHANNEL_SIZE)
+        {
+            return E_SHM_VERSION_WRONG;
+        }
+        //check every cursor before anything is repaired
         for (int i = 0; i < shm->channel_size_; i++)
         {
-            if (i >= SHMLogger::MAX_CHANNEL_SIZE)
-            {
-                return E_SHM_VERSION_WRONG;
-            }
-
-            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].write_idx_ < 0)
+            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN || shm->ring_buffers_[i].write_idx_ < 0
+                || shm->ring_buffers_[i].hold_idx_ >= RingBuffer::BUFFER_LEN || shm->ring_buffers_[i].hold_idx_ < 0
+                || shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN || shm->ring_buffers_[i].read_idx_ < 0)
             {
                 return E_SHM_VERSION_WRONG;
             }
-
+        }
+        for (int i = 0; i < shm->channel_size_; i++)
+        {
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
@@ -110,6 +113,7 @@ namespace FNLog
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
                 log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
+                log.content_len_ = FN_MAX(log.content_len_, 0);
                 memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
 
                 log.content_len_ += core_desc.length();
@@ -120,11 +124,6 @@ namespace FNLog
             }
             shm->ring_buffers_[i].hold_idx_ = shm->ring_buffers_[i].write_idx_.load();
 
-            if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].read_idx_ < 0)
-            {
-                return -10;
-            }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
             if (shm->ring_buffers_[i].read_idx_ != 0 || shm->ring_buffers_[i].write_idx_ != 0)
             {
-- 
2.43.0


From aaf6aa6d4fa7e51361e9797a28850e900e3dd5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 14/24] fix: release a log queue the way it was obtained

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 7b91ceb..eaa2da9 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -141,7 +141,8 @@ namespace FNLog
     inline void UnloadSharedMemory(Logger& logger)
     {
 #if !defined(WIN32)
-        if (logger.shm_ && logger.shm_key_ > 0)
+        //only a shared segment has a size; the key may have changed since it was attached
+        if (logger.shm_ && logger.shm_->shm_size_ != 0)
         {
             int idx = logger.shm_->shm_id_;
             shmdt(logger.shm_);
-- 
2.43.0


From 2ed7fd27306e4c6442eb5fee719440cb9f2b2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 15/24] fix: the time of day of a record was taken from the
 offset of an earlier record

---
 src/include/fn_fmt.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 1d0ea8a..e5d114f 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -324,16 +324,11 @@ namespace FNLog
         static thread_local tm cache_date = { 0 };
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
-        long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        //the offset of local time may change at any instant: only the very same second is taken from the cache
+        if (timestamp != cache_timestamp || cache_date.tm_mday == 0)
         {
             cache_date = FileHandler::time_to_tm((time_t)timestamp);
-            struct tm daytm = cache_date;
-            daytm.tm_hour = 0;
-            daytm.tm_min = 0;
-            daytm.tm_sec = 0;
-            cache_timestamp = mktime(&daytm);
-            day_second = timestamp - cache_timestamp;
+            cache_timestamp = timestamp;
         }
         int write_bytes = 0;
 
@@ -345,13 +340,11 @@ namespace FNLog
 
         *(dst + write_bytes++) = ' ';
 
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second/3600);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_hour);
         *(dst + write_bytes++) = ':';
-        day_second %= 3600;
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second / 60);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_min);
         *(dst + write_bytes++) = ':';
-        day_second %= 60;
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_sec);
 
         *(dst + write_bytes++) = '.';
         if (precise >= 1000)
-- 
2.43.0


From 9544aa5b35e045832702099bbfdc1af2739aa98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 16/24] fix: a failed rename or remove while rolling overwrote
 a backup

---
 src/include/fn_file.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..21877f7 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -385,10 +385,11 @@ namespace FNLog
         }
         next_path += ".";
         next_path += std::to_string(depth);
-        rollback(next_path, depth + 1, max_depth);
-        int ret = ::rename(path.c_str(), next_path.c_str());
-        (void)ret;
-        return true;
+        if (!rollback(next_path, depth + 1, max_depth))
+        {
+            return false; //the next name is still in use, don't overwrite it.
+        }
+        return ::rename(path.c_str(), next_path.c_str()) == 0;
     }
 
     inline int short_path(const char* path, int len)
-- 
2.43.0


From 3f7ac0c771ab892d4b06613b796cbb59c48751b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 17/24] fix: a rollback depth beyond the range of int removed
 the current file

---
 src/include/fn_out_file_device.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..1279f07 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -291,6 +291,7 @@ namespace FNLog
                 //when no rollback but has limit size. need try rollback once.
                 long long limit_roll = device.config_fields_[DEVICE_CFG_FILE_ROLLBACK];
                 limit_roll = limit_roll > 0 ? limit_roll : 1;
+                limit_roll = FN_MIN(limit_roll, (long long)0x7fffffff);
                 FileHandler::rollback(path, 1, (int)limit_roll);
             }
         }
-- 
2.43.0


From 8f96b5c329230744cd93a38a374240753f1ec7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 18/24] fix: read of 8 bytes from a 4 byte address

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..e84b26e 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -652,7 +652,7 @@ namespace FNLog
                     struct in_addr addr;
                     while (rhost->h_addr_list[i] != 0) 
                     {
-                        addr.s_addr = *(u_long*)rhost->h_addr_list[i++];
+                        memcpy(&addr.s_addr, rhost->h_addr_list[i++], sizeof(addr.s_addr));
                         return std::make_pair((long long)inet_addr(inet_ntoa(addr)), ip_end);
                         //printf("%s", inet_ntoa(addr));
                     }
-- 
2.43.0


From 44d80775f0019182b68a3a2d7804d0a9dfa9c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 19/24] fix: bit numbers out of range in a configuration
 shifted out of range

---
 src/include/fn_parse.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index e84b26e..5012222 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -716,7 +716,7 @@ namespace FNLog
                 break;
             }
 
-            int bit_offset_first = atoi(offset);
+            long long bit_offset_first = atoll(offset);
             while (offset < end && (IsNumber(*offset) || IsBlank(*offset)))
             {
                 offset++;
@@ -724,7 +724,7 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= bit_offset_first < 64 ? (1ULL << bit_offset_first) : 0;
                 continue;
             }
 
@@ -735,12 +735,12 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= bit_offset_first < 64 ? (1ULL << bit_offset_first) : 0;
                 continue;
             }
 
-            int bit_offset_last = atoi(offset);
-            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
+            long long bit_offset_last = atoll(offset);
+            for (long long i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last) && i < 64; i++)
             {
                 bitmap |= (1ULL << i);
             }
-- 
2.43.0


From edd16d021d100fe3208dea50d680d2acb2fd031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 20/24] fix: endless loop replacing a name by itself

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 5012222..e5fba7e 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From 1c0976cd83b1550089846296e89ebbc4a9454817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 21/24] fix: a size limit that overflows

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index e5fba7e..f5764f0 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1222,7 +1222,7 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_LIMIT_SIZE:
-                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
+                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = FN_MAX(FN_MIN(atoll(ls.line_.val_begin_), 0x7fffffffffffffffLL / (1000 * 1000)), 0LL) * 1000 * 1000;
                 break;
             case RK_ROLLBACK:
                 device.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = atoll(ls.line_.val_begin_);
-- 
2.43.0


From b426ad0eb6a709a75065af58a4665459941ae2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 22/24] fix: a configuration ends at its first NUL byte

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index f5764f0..96fcb1f 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1412,7 +1412,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = first + strlen(first); //the text ends at its first '\0'
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From 6dc6d84a0b38ad2eea3fd526e9715d28f4b1f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 23/24] fix: the key of the shared queue was not initialised

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 96fcb1f..5bebab1 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1415,6 +1415,7 @@ namespace FNLog
         ls.end_ = first + strlen(first); //the text ends at its first '\0'
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
+        ls.shm_key_ = 0;
         ls.hot_update_ = false;
         ls.current_ = ls.first_;
         ls.line_no_ = 1; 
-- 
2.43.0


From 113f0ea60d18a20956d7313191d29e707e675a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:07 +0000
Subject: [PATCH 24/24] fix: keep the sign of small negative values and of
 minus infinity when writing doubles

---
 src/include/fn_fmt.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index e5d114f..a0d47ba 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -259,6 +259,11 @@ namespace FNLog
             *dst = '0';
             return 1;
         case FP_INFINITE:
+            if (std::signbit(number))
+            {
+                memcpy(dst, "-inf", 4);
+                return 4;
+            }
             memcpy(dst, "inf", 3);
             return 3;
         case FP_NAN:
@@ -276,7 +281,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0

