#include "probe.h"
using namespace FNLog;
VP_TYPE(Logger) VP_TYPE(SHMLogger) VP_TYPE(Channel) VP_TYPE(Device) VP_TYPE(RingBuffer) VP_TYPE(LogData) VP_TYPE(LogStream)
VP_OFF(LogStream, log_data_) VP_OFF(LogStream, logger_) VP_OFF(LogStream, hold_idx_)
VP_OFF(LogData, data_mark_) VP_OFF(LogData, channel_id_) VP_OFF(LogData, priority_) VP_OFF(LogData, category_) VP_OFF(LogData, identify_) VP_OFF(LogData, code_line_)
VP_OFF(LogData, code_func_len_) VP_OFF(LogData, code_file_len_) VP_OFF(LogData, code_func_) VP_OFF(LogData, code_file_) VP_OFF(LogData, timestamp_) VP_OFF(LogData, precise_)
VP_OFF(LogData, thread_) VP_OFF(LogData, prefix_len_) VP_OFF(LogData, content_len_) VP_OFF(LogData, content_)
VP_OFF(Logger, logger_state_) VP_OFF(Logger, shm_) VP_OFF(Logger, shm_key_) VP_OFF(Logger, hot_update_) VP_OFF(Logger, yaml_path_) VP_OFF(Logger, desc_) VP_OFF(Logger, desc_len_)
VP_OFF(Logger, name_) VP_OFF(Logger, name_len_) VP_OFF(Logger, file_handles_) VP_OFF(Logger, udp_handles_) VP_OFF(Logger, read_locks_) VP_OFF(Logger, screen_lock_) VP_OFF(Logger, state_lock_) VP_OFF(Logger, async_threads) VP_OFF(Logger, freq_limits_)
VP_OFF(SHMLogger, shm_id_) VP_OFF(SHMLogger, shm_size_) VP_OFF(SHMLogger, channel_size_) VP_OFF(SHMLogger, channels_) VP_OFF(SHMLogger, ring_buffers_)
VP_OFF(Channel, channel_id_) VP_OFF(Channel, channel_type_) VP_OFF(Channel, virtual_device_id_) VP_OFF(Channel, device_size_) VP_OFF(Channel, channel_state_) VP_OFF(Channel, config_fields_) VP_OFF(Channel, devices_)
VP_OFF(Channel, yaml_mtime_) VP_OFF(Channel, last_hot_check_) VP_OFF(Channel, channel_log_fields_) VP_OFF(Channel, device_log_fields_)
VP_OFF(Device, device_id_) VP_OFF(Device, out_type_) VP_OFF(Device, in_type_) VP_OFF(Device, out_file_) VP_OFF(Device, out_path_) VP_OFF(Device, config_fields_)
VP_OFF(RingBuffer, write_idx_) VP_OFF(RingBuffer, hold_idx_) VP_OFF(RingBuffer, read_idx_) VP_OFF(RingBuffer, proc_idx_) VP_OFF(RingBuffer, buffer_) VP_OFF(RingBuffer, udp_buffer_)
VP_TYPE(LexState) VP_OFF(LexState, channels_) VP_OFF(LexState, channel_size_) VP_OFF(LexState, shm_key_) VP_OFF(LexState, hot_update_) VP_OFF(LexState, desc_) VP_OFF(LexState, desc_len_) VP_OFF(LexState, name_) VP_OFF(LexState, name_len_)
VP_OFF(LexState, line_no_) VP_OFF(LexState, first_) VP_OFF(LexState, current_) VP_OFF(LexState, end_)
VP_INT(LEX_BYTES, sizeof(LexState)) VP_INT(OFF_ERRNO, 0)
VP_TYPE(FileHandler) VP_OFF(FileHandler, file_)
extern "C" UDPHandler* vp_type__UDPHandler(UDPHandler* p) { return p + 1; }
VP_OFFG(UDPHandler, handler_) VP_OFFG(UDPHandler, open_ts_) VP_OFFG(UDPHandler, addr_)
extern "C" struct tm* vp_type__tm(struct tm* p) { return p + 1; }
VP_OFFG(tm, tm_sec) VP_OFFG(tm, tm_min) VP_OFFG(tm, tm_hour) VP_OFFG(tm, tm_mday) VP_OFFG(tm, tm_mon) VP_OFFG(tm, tm_year)
using StatBuf = struct stat; VP_INT(OFF_ST_SIZE, offsetof(StatBuf, st_size)) VP_INT(OFF_ST_MTIME, offsetof(StatBuf, st_mtim))
#define C(N) VP_INT(N, N)
VP_INT(LOGGER_DESC_LEN, Logger::MAX_LOGGER_DESC_LEN) VP_INT(LOGGER_NAME_LEN, Logger::MAX_LOGGER_NAME_LEN)
C(LOG_PREFIX_TIMESTAMP) C(LOG_PREFIX_PRIORITY) C(LOG_PREFIX_THREAD) C(LOG_PREFIX_NAME) C(LOG_PREFIX_DESC) C(LOG_PREFIX_FILE) C(LOG_PREFIX_FUNCTION)
using TimeVal = struct timeval; VP_INT(OFF_TV_SEC, offsetof(TimeVal, tv_sec)) VP_INT(OFF_TV_USEC, offsetof(TimeVal, tv_usec))
VP_INT(LOG_SIZE, LogData::LOG_SIZE) VP_INT(BUFFER_LEN, RingBuffer::BUFFER_LEN) VP_INT(MAX_DEVICE_SIZE, Channel::MAX_DEVICE_SIZE) VP_INT(MAX_CHANNEL_SIZE, SHMLogger::MAX_CHANNEL_SIZE)
VP_INT(SHM_BYTES, sizeof(SHMLogger)) VP_INT(HOTUPDATE_INTERVEL, Logger::HOTUPDATE_INTERVEL) VP_INT(MAX_PATH_LEN, Device::MAX_PATH_LEN) VP_INT(MAX_LOGGER_NAME_LEN, Device::MAX_LOGGER_NAME_LEN)
C(PRIORITY_MAX) C(LOGGER_STATE_UNINIT) C(LOGGER_STATE_INITING) C(LOGGER_STATE_RUNNING) C(LOGGER_STATE_CLOSING)
C(CHANNEL_STATE_NULL) C(CHANNEL_STATE_RUNNING) C(CHANNEL_STATE_WAITING_FINISH) C(CHANNEL_STATE_FINISH) C(CHANNEL_ASYNC) C(CHANNEL_SYNC)
C(PRIORITY_FATAL) VP_INT(ERR_NOENT, ENOENT) C(MARK_INVALID) C(MARK_HOLD) C(MARK_READY)
C(CHANNEL_CFG_PRIORITY) C(CHANNEL_CFG_CATEGORY) C(CHANNEL_CFG_CATEGORY_EXTEND) C(CHANNEL_CFG_CATEGORY_MASK) C(CHANNEL_CFG_IDENTIFY) C(CHANNEL_CFG_IDENTIFY_EXTEND) C(CHANNEL_CFG_IDENTIFY_MASK) C(CHANNEL_CFG_MAX_ID)
C(CHANNEL_LOG_WAIT_COUNT) C(CHANNEL_LOG_HOLD) C(CHANNEL_LOG_PUSH) C(CHANNEL_LOG_PRIORITY) C(CHANNEL_LOG_PROCESSED) C(CHANNEL_LOG_PROCESSED_BYTES) C(CHANNEL_LOG_MAX_PROC_QUE_SIZE) C(CHANNEL_LOG_MAX_DELAY_TIME_S) C(CHANNEL_LOG_HOTUPDATE_CHECK) C(CHANNEL_LOG_HOTUPDATE_CHANGE) C(CHANNEL_LOG_MAX_ID)
C(DEVICE_CFG_ABLE) C(DEVICE_CFG_PRIORITY) C(DEVICE_CFG_CATEGORY) C(DEVICE_CFG_CATEGORY_EXTEND) C(DEVICE_CFG_CATEGORY_MASK) C(DEVICE_CFG_IDENTIFY) C(DEVICE_CFG_IDENTIFY_EXTEND) C(DEVICE_CFG_IDENTIFY_MASK)
C(DEVICE_CFG_FILE_LIMIT_SIZE) C(DEVICE_CFG_FILE_ROLLBACK) C(DEVICE_CFG_FILE_ROLLDAILY) C(DEVICE_CFG_FILE_ROLLHOURLY) C(DEVICE_CFG_FILE_STUFF_UP) C(DEVICE_CFG_UDP_IP) C(DEVICE_CFG_UDP_PORT) C(DEVICE_CFG_MAX_ID)
C(DEVICE_LOG_CUR_FILE_SIZE) C(DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP) C(DEVICE_LOG_CUR_FILE_CREATE_DAY) C(DEVICE_LOG_CUR_FILE_CREATE_HOUR) C(DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP) C(DEVICE_LOG_LAST_TRY_CREATE_ERROR) C(DEVICE_LOG_LAST_TRY_CREATE_CNT) C(DEVICE_LOG_PRIORITY) C(DEVICE_LOG_TOTAL_WRITE_LINE) C(DEVICE_LOG_TOTAL_WRITE_BYTE) C(DEVICE_LOG_TOTAL_LOSE_LINE) C(DEVICE_LOG_MAX_ID)
C(DEVICE_IN_NULL) C(DEVICE_IN_UDP) C(DEVICE_OUT_NULL) C(DEVICE_OUT_SCREEN) C(DEVICE_OUT_FILE) C(DEVICE_OUT_UDP) C(DEVICE_OUT_VIRTUAL) C(DEVICE_OUT_EMPTY)
extern "C" {
void vp_stream(void* m, Logger& l, int c, int p, int cat, long long id, const char* f, int fl, int line, const char* fn, int fnl, unsigned pre) { new (m) LogStream(l, c, p, cat, id, f, fl, line, fn, fnl, pre); }
void vp_streamend(LogStream& s) { s.~LogStream(); }
void vp_streammove(void* m, LogStream& o) { new (m) LogStream(std::move(o)); }
int vp_shortpath(const char* p, int n) { return short_path(p, n); }
int vp_priotext(char* d, int p) { return write_log_priority_unsafe(d, p); }
int vp_threadtext(char* d, unsigned t) { return write_log_thread_unsafe(d, t); }
bool vp_block(Logger& l, int c, int p, int cat, long long id) { return BlockInput(l, c, p, cat, id); }
int vp_hold(Logger& l, int c, int p, int cat, long long id) { return HoldChannel(l, c, p, cat, id); }
int vp_push(Logger& l, int c, int h) { return PushChannel(l, c, h); }
int vp_transmit(Logger& l, int c, int cat, long long id, const LogData& d) { return TransmitChannel(l, c, cat, id, d); }
void vp_dispatch(Logger& l, Channel& c, LogData& d) { DispatchLog(l, c, d); }
void vp_proc(Logger& l, int c) { EnterProcChannel(l, c); }
void vp_procdev(Logger& l, int c, int d, LogData& log) { EnterProcDevice(l, c, d, log); }
void vp_screen(Logger& l, int c, int d, LogData& log) { EnterProcOutScreenDevice(l, c, d, log); }
void vp_file(Logger& l, int c, int d, LogData& log) { EnterProcOutFileDevice(l, c, d, log); }
void vp_udp(Logger& l, int c, int d, LogData& log) { EnterProcOutUDPDevice(l, c, d, log); }
void vp_empty(Logger& l, int c, int d, LogData& log) { EnterProcOutEmptyDevice(l, c, d, log); }
void vp_virtual(Logger& l, int c, int d, LogData& log) { EnterProcOutVirtualDevice(l, c, d, log); }
void vp_initlog(Logger& l, LogData& d, int c, int p, int cat, unsigned long long id, unsigned pre) { InitLogData(l, d, c, p, cat, id, pre); }
long long vp_getchlog(Logger& l, int c, unsigned f) { return GetChannelLog(l, c, (ChannelLogEnum)f); }
void vp_setchcfg(Logger& l, int c, unsigned f, long long v) { SetChannelConfig(l, c, (ChannelConfigEnum)f, v); }
long long vp_getdevlog(Logger& l, int c, int d, unsigned f) { return GetDeviceLog(l, c, d, (DeviceLogEnum)f); }
void vp_setdevcfg(Logger& l, int c, int d, unsigned f, long long v) { SetDeviceConfig(l, c, d, (DeviceConfigEnum)f, v); }
long long vp_getdevcfg(Logger& l, int c, int d, unsigned f) { return GetDeviceConfig(l, c, d, (DeviceConfigEnum)f); }
void vp_batchch(Logger& l, unsigned f, long long v) { BatchSetChannelConfig(l, (ChannelConfigEnum)f, v); }
void vp_batchdev(Logger& l, unsigned o, unsigned f, long long v) { BatchSetDeviceConfig(l, (DeviceOutType)o, (DeviceConfigEnum)f, v); }
int vp_startch(Logger& l) { return StartChannels(l); }
int vp_stopch(Logger& l) { return StopChannels(l); }
int vp_start(Logger& l) { return StartLogger(l); }
int vp_stop(Logger& l) { return StopLogger(l); }
int vp_clean(Logger& l) { return CleanChannels(l); }
int vp_hot(Logger& l, int c) { return HotUpdateLogger(l, c); }
int vp_loadshm(Logger& l) { return LoadSharedMemory(l); }
void vp_unloadshm(Logger& l) { UnloadSharedMemory(l); }
int vp_parsestart(Logger& l, const std::string& t) { return ParseAndStartLogger(l, t); }
int vp_loadstart(Logger& l, const std::string& p) { return LoadAndStartLogger(l, p); }
int vp_inityaml(Logger& l, const std::string& t, const std::string& p) { return InitFromYMAL(l, t, p); }
}
