#include "probe.h"
using namespace FNLog;
VP_TYPE(LogStream) VP_TYPE(LogData)
VP_OFF(LogStream, log_data_) VP_OFF(LogStream, logger_) VP_OFF(LogStream, hold_idx_)
VP_OFF(LogData, content_) VP_OFF(LogData, content_len_) VP_OFF(LogData, prefix_len_) VP_OFF(LogData, category_)
VP_INT(LOG_SIZE, LogData::LOG_SIZE)
extern "C" {
// integers
void vp_s16(LogStream& s, short v) { s << v; }
void vp_u16(LogStream& s, unsigned short v) { s << v; }
void vp_s32(LogStream& s, int v) { s << v; }
void vp_u32(LogStream& s, unsigned int v) { s << v; }
void vp_sl(LogStream& s, long v) { s << v; }
void vp_ul(LogStream& s, unsigned long v) { s << v; }
void vp_s64(LogStream& s, long long v) { s << v; }
void vp_u64(LogStream& s, unsigned long long v) { s << v; }
void vp_u8(LogStream& s, unsigned char v) { s << v; }
void vp_num_s32_w6(LogStream& s, int v) { s.write_number<6>(v); }
void vp_num_u64_w12(LogStream& s, unsigned long long v) { s.write_number<12>(v); }
void vp_num_u8_w3(LogStream& s, unsigned char v) { s.write_number<3>(v); }
void vp_num_s64_w0(LogStream& s, long long v) { s.write_number<0>(v); }
// everything else that can be streamed
void vp_char(LogStream& s, char v) { s << v; }
void vp_bool(LogStream& s, bool v) { s << v; }
void vp_cstr(LogStream& s, const char* v) { s << v; }
void vp_ptr(LogStream& s, const void* v) { s << v; }
void vp_null(LogStream& s) { s << nullptr; }
void vp_float(LogStream& s, float v) { s << v; }
void vp_double(LogStream& s, double v) { s << v; }
void vp_buf(LogStream& s, const char* b, int n) { s.write_buffer(b, n); }
void vp_binary(LogStream& s, const char* b, int n) { s.write_binary(b, n); }
void vp_cat(LogStream& s, int c) { s.set_category(c); }
void vp_string(LogStream& s, const std::string& v) { s << v; }
void vp_vec(LogStream& s, const std::vector<int>& v) { s << v; }
void vp_pair(LogStream& s, const std::pair<int, unsigned long long>& v) { s << v; }
void vp_blank(LogStream& s) { s << LogBlankAlign<80>(); }
void vp_blank_wide(LogStream& s) { s << LogBlankAlign<300>(); }
void vp_percent(LogStream& s, float v) { s << LogPercent(v); }
void vp_time(LogStream& s, long long t, int ms) { s << LogTimestamp(t, ms); }
}
// an arbitrary container: size and iteration are unspecified external functions
struct VpIter { int pos; bool operator!=(const VpIter&) const; VpIter& operator++(); VpIter operator++(int); int operator*() const; };
struct VpCont { int x; size_t size() const; VpIter begin() const; VpIter end() const; };
extern "C" VpCont* vp_type__VpCont(VpCont* p) { return p + 1; }
extern "C" void vp_container(LogStream& s, const VpCont& c) { s.write_container(c, "container:", 10); }
