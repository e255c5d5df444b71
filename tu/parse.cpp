#include "probe.h"
using namespace FNLog;
namespace FNLog { using ::hostent; }
VP_TYPE(LexState) VP_TYPE(Line) VP_TYPE(Channel) VP_TYPE(Device)
VP_TYPE(hostent) VP_OFF(hostent, h_addrtype) VP_OFF(hostent, h_length) VP_OFF(hostent, h_addr_list)
VP_OFF(LexState, line_no_) VP_OFF(LexState, first_) VP_OFF(LexState, current_) VP_OFF(LexState, end_) VP_OFF(LexState, line_)
VP_OFF(LexState, channels_) VP_OFF(LexState, channel_size_) VP_OFF(LexState, shm_key_) VP_OFF(LexState, hot_update_) VP_OFF(LexState, desc_) VP_OFF(LexState, desc_len_) VP_OFF(LexState, name_) VP_OFF(LexState, name_len_)
VP_OFF(Line, blank_) VP_OFF(Line, chars_) VP_OFF(Line, block_type_) VP_OFF(Line, block_stack_) VP_OFF(Line, key_) VP_OFF(Line, key_begin_) VP_OFF(Line, key_end_) VP_OFF(Line, val_begin_) VP_OFF(Line, val_end_)
VP_OFF(Channel, channel_id_) VP_OFF(Channel, channel_type_) VP_OFF(Channel, virtual_device_id_) VP_OFF(Channel, device_size_) VP_OFF(Channel, channel_state_) VP_OFF(Channel, config_fields_) VP_OFF(Channel, devices_)
VP_OFF(Channel, yaml_mtime_) VP_OFF(Channel, last_hot_check_) VP_OFF(Channel, channel_log_fields_) VP_OFF(Channel, device_log_fields_)
VP_OFF(Device, device_id_) VP_OFF(Device, out_type_) VP_OFF(Device, in_type_) VP_OFF(Device, out_file_) VP_OFF(Device, out_path_) VP_OFF(Device, config_fields_)
#define C(N) VP_INT(N, N)
VP_INT(AFINET, AF_INET)
VP_INT(LOGGER_DESC_LEN, Logger::MAX_LOGGER_DESC_LEN) VP_INT(LOGGER_NAME_LEN, Logger::MAX_LOGGER_NAME_LEN) VP_INT(MAX_DEVICE_SIZE, Channel::MAX_DEVICE_SIZE) VP_INT(MAX_CHANNEL_SIZE, Logger::MAX_CHANNEL_SIZE)
VP_INT(MAX_PATH_LEN, Device::MAX_PATH_LEN) VP_INT(MAX_LOGGER_NAME_LEN, Device::MAX_LOGGER_NAME_LEN) VP_INT(DEVICE_BYTES, sizeof(Device)) VP_INT(CHANNEL_BYTES, sizeof(Channel)) VP_INT(LINE_BYTES, sizeof(Line))
C(PEC_NONE) C(CHANNEL_STATE_NULL) C(CHANNEL_ASYNC) C(CHANNEL_SYNC)
C(PRIORITY_TRACE) C(PRIORITY_DEBUG) C(PRIORITY_INFO) C(PRIORITY_WARN) C(PRIORITY_ERROR) C(PRIORITY_ALARM) C(PRIORITY_FATAL) C(PRIORITY_MAX)
C(DEVICE_IN_NULL) C(DEVICE_IN_UDP) C(DEVICE_OUT_NULL) C(DEVICE_OUT_SCREEN) C(DEVICE_OUT_FILE) C(DEVICE_OUT_UDP) C(DEVICE_OUT_VIRTUAL) C(DEVICE_OUT_EMPTY)
C(CHANNEL_CFG_PRIORITY) C(CHANNEL_CFG_CATEGORY) C(CHANNEL_CFG_CATEGORY_EXTEND) C(CHANNEL_CFG_CATEGORY_MASK) C(CHANNEL_CFG_IDENTIFY) C(CHANNEL_CFG_IDENTIFY_EXTEND) C(CHANNEL_CFG_IDENTIFY_MASK) C(CHANNEL_CFG_MAX_ID)
C(DEVICE_CFG_ABLE) C(DEVICE_CFG_PRIORITY) C(DEVICE_CFG_CATEGORY) C(DEVICE_CFG_CATEGORY_EXTEND) C(DEVICE_CFG_CATEGORY_MASK) C(DEVICE_CFG_IDENTIFY) C(DEVICE_CFG_IDENTIFY_EXTEND) C(DEVICE_CFG_IDENTIFY_MASK)
C(DEVICE_CFG_FILE_LIMIT_SIZE) C(DEVICE_CFG_FILE_ROLLBACK) C(DEVICE_CFG_FILE_ROLLDAILY) C(DEVICE_CFG_FILE_ROLLHOURLY) C(DEVICE_CFG_FILE_STUFF_UP) C(DEVICE_CFG_UDP_IP) C(DEVICE_CFG_UDP_PORT) C(DEVICE_CFG_MAX_ID)
C(E_INVALID_CHANNEL_SIZE) C(E_CHANNEL_NOT_SEQUENCE) C(E_OUT_OF_DEVICE_SIZE) C(E_DEVICE_NOT_SEQUENCE)
C(RK_NULL) C(RK_SHM_KEY) C(RK_CHANNEL) C(RK_DEFINE) C(RK_VARIABLE) C(RK_DEVICE) C(RK_SYNC) C(RK_DISABLE) C(RK_HOT_UPDATE) C(RK_LOGGER_NAME) C(PK_LOGGER_DESC) C(RK_PRIORITY) C(RK_CATEGORY) C(RK_CATEGORY_EXTEND) C(RK_CATEGORY_WLIST) C(RK_CATEGORY_BLIST) C(RK_CATEGORY_WMASK) C(RK_CATEGORY_BMASK) C(RK_IDENTIFY) C(RK_IDENTIFY_EXTEND) C(RK_IDENTIFY_WLIST) C(RK_IDENTIFY_BLIST) C(RK_IDENTIFY_WMASK) C(RK_IDENTIFY_BMASK) C(RK_IN_TYPE) C(RK_OUT_TYPE) C(RK_FILE) C(RK_PATH) C(RK_LIMIT_SIZE) C(RK_ROLLBACK) C(RK_ROLLDAILY) C(RK_ROLLHOURLY) C(RK_FILE_STUFF_UP) C(RK_UDP_ADDR)
extern "C" {
int vp_parselogger(LexState& s, std::string& t) { return ParseLogger(s, t); }
}
