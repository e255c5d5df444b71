#include "h.h"
static std::string two(int v) { char b[8]; snprintf(b, 8, "%02d", v); return b; }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    SHMLogger* S = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger* L = new Logger();
    L->shm_ = S; S->channel_size_ = SHMLogger::MAX_CHANNEL_SIZE; L->logger_state_ = LOGGER_STATE_RUNNING;
    for (int c = 0; c < S->channel_size_; c++) { Channel& ch = S->channels_[c]; ch.channel_id_ = c; ch.channel_state_ = CHANNEL_STATE_RUNNING; ch.channel_type_ = CHANNEL_ASYNC; ch.virtual_device_id_ = -1; ch.device_size_ = 1; ch.devices_[0].config_fields_[DEVICE_CFG_ABLE] = 1; ch.devices_[0].out_type_ = DEVICE_OUT_EMPTY; }
    static const char* PN[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
    const unsigned char alpha[] = "ab/\\.:_x";
    for (long it = 0; it < n; it++)
    {
        int c = (int)rnd(S->channel_size_), p = (int)rnd(PRIORITY_MAX), cat = (int)rnd(), line = (int)(rndv() & 0x7fffffff);
        long long id = (long long)rndv();
        unsigned pre = (unsigned)rnd(128);
        std::string name, desc, file, func;
        for (unsigned long long k = rnd(3) ? rnd(20) : rnd(Logger::MAX_LOGGER_NAME_LEN); k; k--) name += (char)(1 + rnd(255));
        for (unsigned long long k = rnd(Logger::MAX_LOGGER_DESC_LEN); k; k--) desc += (char)(1 + rnd(255));
        for (unsigned long long k = rnd(3) ? rnd(30) : rnd(4000); k; k--) file += (char)alpha[rnd(8)];
        for (unsigned long long k = rnd(3) ? rnd(30) : rnd(4000); k; k--) func += (char)(1 + rnd(255));
        memcpy(L->name_, name.data(), name.size()); L->name_len_ = (int)name.size(); L->name_[name.size()] = 0;
        memcpy(L->desc_, desc.data(), desc.size()); L->desc_len_ = (int)desc.size(); L->desc_[desc.size()] = 0;
        char* fb = (char*)malloc(file.size() + 1); memcpy(fb, file.data(), file.size()); char* ff = (char*)realloc(fb, file.size() ? file.size() : 1);
        char* nb = (char*)malloc(func.size() + 1); memcpy(nb, func.data(), func.size()); char* fn = (char*)realloc(nb, func.size() ? func.size() : 1);
        const char* pf = rnd(8) ? ff : nullptr; const char* pn = rnd(8) ? fn : nullptr;
        int fl = rnd(16) ? (int)file.size() : -(int)rnd(3), fnl = rnd(16) ? (int)func.size() : -(int)rnd(3);
        RingBuffer& rb = S->ring_buffers_[c];
        int h = (int)rnd(RingBuffer::BUFFER_LEN);
        rb.read_idx_ = rb.proc_idx_ = rb.write_idx_ = rb.hold_idx_ = h;
        LogData& d = rb.buffer_[h];
        memset((void*)&d, 0x77, sizeof d); d.data_mark_ = 0;
        time_t t0 = time(nullptr);
        alignas(LogStream) unsigned char mem[sizeof(LogStream)];
        new (mem) LogStream(*L, c, p, cat, id, pf, fl, line, pn, fnl, pre);
        time_t t1 = time(nullptr);
        LogStream& ls = *(LogStream*)mem;
        if (ls.log_data_ != &d || ls.logger_ != L || ls.hold_idx_ != h) FAIL("the stream does not own the slot it took");
        if (d.channel_id_ != c || d.priority_ != p || d.category_ != cat || d.identify_ != id || d.code_line_ != line || d.code_func_len_ != fnl || d.code_file_len_ != fl || d.code_file_ != pf || d.code_func_ != pn)
            FAIL("attributes: channel %d/%d priority %d/%d category %d/%d identify %lld/%lld line %d/%d", d.channel_id_, c, d.priority_, p, d.category_, cat, d.identify_, id, d.code_line_, line);
        if (d.timestamp_ < t0 - 1 || d.timestamp_ > t1 + 1 || d.precise_ < 0 || d.precise_ > 999) FAIL("time of the record %lld.%d, now %lld", (long long)d.timestamp_, d.precise_, (long long)t0);
        std::string w;
        if (pre & LOG_PREFIX_TIMESTAMP) { time_t ts = d.timestamp_; tm m; localtime_r(&ts, &m); char b[64]; snprintf(b, 64, "[%04d%02d%02d %02d:%02d:%02d.%03d]", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, d.precise_); w += b; }
        if (pre & LOG_PREFIX_PRIORITY) w += PN[p];
        if (pre & LOG_PREFIX_THREAD) w += "[" + std::to_string((unsigned)syscall(SYS_gettid)) + "]";
        if (pre & LOG_PREFIX_NAME) w += "[" + name + "]";
        if (pre & LOG_PREFIX_DESC) w += "[" + desc + "]";
        if (pre & LOG_PREFIX_FILE)
        {
            std::string s = "nofile";
            if (pf && fl > 0) { size_t q = std::string::npos; s = file; bool found = true; for (int k = 0; k < 3 && found; k++) { if (q == 0) { found = false; break; } size_t r = s.find_last_of("/\\", q == std::string::npos ? q : q - 1); if (r == std::string::npos) found = false; else q = r; } if (found) s = s.substr(q + 1); }
            w += "[" + s + ":" + std::to_string((unsigned long long)line) + "]";
        }
        if (pre & LOG_PREFIX_FUNCTION) w += "(" + (pn && fnl > 0 ? func : std::string("null")) + ")";
        if (pre) w += " ";
        if (d.content_len_ != (int)w.size() || memcmp(d.content_, w.data(), w.size())) FAIL("prefix %u: \"%s\" instead of \"%s\"", pre, esc(std::string(d.content_, std::min(300, std::max(0, d.content_len_)))).c_str(), esc(w.substr(0, 300)).c_str());
        if (d.prefix_len_ != d.content_len_) FAIL("prefix length %d of %d", d.prefix_len_, d.content_len_);
        free(ff); free(fn);
    }
    L->shm_ = nullptr;
    printf("ok %ld records\n", n);
}
