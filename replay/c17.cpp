#include "h.h"
#include <fstream>
#include <sstream>
static int save_out = -1, tmp_fd = -1;
static void cap_begin() { fflush(stdout); ftruncate(tmp_fd, 0); lseek(tmp_fd, 0, SEEK_SET); dup2(tmp_fd, 1); }
static std::string cap_end() { fflush(stdout); dup2(save_out, 1); std::string r; char b[4096]; lseek(tmp_fd, 0, SEEK_SET); ssize_t k; while ((k = read(tmp_fd, b, sizeof b)) > 0) r.append(b, k); return r; }
static bool deco(const std::string& s)      // only terminal colour sequences
{
    size_t i = 0;
    while (i < s.size()) { if (s[i] != '\x1b' || i + 1 >= s.size() || s[i + 1] != '[') return false; i += 2; while (i < s.size() && (isdigit(s[i]) || s[i] == ';')) i++; if (i >= s.size() || s[i] != 'm') return false; i++; }
    return true;
}
static const LogData* hooked = nullptr; static int hooks = 0; static std::string hooktext; static bool hooknul = true;
static void hook(const LogData& l) { hooked = &l; hooks++; hooktext.assign(l.content_, l.content_len_); hooknul = l.content_[l.content_len_] == 0; }
static bool passes(long long b, long long k, unsigned long long m, long long v) { if (k > 0 && (v < b || (__int128)v >= (__int128)b + k)) return false; return !m || (v >= 0 && v < 64 && (m >> v & 1)); }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    save_out = dup(1);
    char tn[] = "capXXXXXX"; tmp_fd = mkstemp(tn);
    SHMLogger* shm = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger& logger = *new Logger();
    logger.shm_ = shm;
    shm->channel_size_ = 2;
    LogData* log = (LogData*)calloc(1, sizeof(LogData));
    int rx = socket(AF_INET, SOCK_DGRAM, 0);
    struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); sa.sin_port = 0;
    bind(rx, (struct sockaddr*)&sa, sizeof sa); socklen_t sl = sizeof sa; getsockname(rx, (struct sockaddr*)&sa, &sl);
    fcntl(rx, F_SETFL, O_NONBLOCK);
    for (long it = 0; it < n; it++)
    {
        int c = rnd(2), d = rnd(Channel::MAX_DEVICE_SIZE);
        Channel& ch = shm->channels_[c];
        ch.channel_id_ = c; ch.device_size_ = Channel::MAX_DEVICE_SIZE; ch.channel_type_ = CHANNEL_SYNC; ch.channel_state_ = CHANNEL_STATE_RUNNING;
        Device& dv = ch.devices_[d];
        memset((void*)&dv, 0, sizeof dv);
        dv.device_id_ = d;
        int len = 1 + rnd(rnd(8) ? 200 : LogData::LOG_SIZE - 2);
        for (int i = 0; i < len - 1; i++) log->content_[i] = rnd(12) ? 'a' + rnd(26) : (char)rnd(256);
        if (rnd(3) == 0) log->content_[rnd(len)] = "%\0\n\x1b"[rnd(4)];
        log->content_[len - 1] = '\n'; log->content_[len] = 0;
        log->content_len_ = len; log->priority_ = rnd(PRIORITY_MAX); log->timestamp_ = 1600000000 + it; log->category_ = rnd(64); log->identify_ = rnd(64);
        std::string text(log->content_, len);
        Snap snap; snap.take(*log);
        for (int i = 0; i < DEVICE_LOG_MAX_ID; i++) ch.device_log_fields_[d][i] = (long long)rnd(1000000);
        ch.device_log_fields_[d][DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP] = 0;
        static SHMLogger::Channels* before = (SHMLogger::Channels*)malloc(sizeof(SHMLogger::Channels));
        int kind = rnd(5);
        bool want = true, lost = false;
        FileHandler& fh = logger.file_handles_[c * Channel::MAX_DEVICE_SIZE + d];
        UDPHandler& uh = logger.udp_handles_[c * Channel::MAX_DEVICE_SIZE + d];
        long long filesize = 0;
        unsigned viakind[] = { DEVICE_OUT_SCREEN, DEVICE_OUT_FILE, DEVICE_OUT_UDP, DEVICE_OUT_EMPTY, DEVICE_OUT_VIRTUAL };
        dv.out_type_ = viakind[kind];
        if (kind == 1) { dv.config_fields_[DEVICE_CFG_FILE_STUFF_UP] = 1; char nm[40]; snprintf(nm, 40, "f%d", (int)rnd(3)); strcpy(dv.out_file_, nm); if (!fh.is_open()) fh.close(); }
        if (kind == 2) { dv.config_fields_[DEVICE_CFG_UDP_IP] = rnd(4) ? sa.sin_addr.s_addr : 0xffffffffu; dv.config_fields_[DEVICE_CFG_UDP_PORT] = sa.sin_port; lost = dv.config_fields_[DEVICE_CFG_UDP_IP] == 0xffffffffu; char b[8]; while (recv(rx, b, 8, 0) >= 0) { } }
        if (kind == 4) { long long* f = dv.config_fields_; 
            f[DEVICE_CFG_CATEGORY] = log->category_ - (long long)rnd(3); f[DEVICE_CFG_CATEGORY_EXTEND] = rnd(4); f[DEVICE_CFG_CATEGORY_MASK] = rnd(2) ? 0 : (long long)rnd(); f[DEVICE_CFG_IDENTIFY] = log->identify_ - (long long)rnd(3); f[DEVICE_CFG_IDENTIFY_EXTEND] = rnd(4); f[DEVICE_CFG_IDENTIFY_MASK] = rnd(2) ? 0 : (long long)rnd();
            want = passes(f[DEVICE_CFG_CATEGORY], f[DEVICE_CFG_CATEGORY_EXTEND], f[DEVICE_CFG_CATEGORY_MASK], log->category_) && passes(f[DEVICE_CFG_IDENTIFY], f[DEVICE_CFG_IDENTIFY_EXTEND], f[DEVICE_CFG_IDENTIFY_MASK], log->identify_);
            bool inst = rnd(8) != 0; SetVirtualDevice(inst ? hook : nullptr); want = want && inst; hooks = 0; hooked = nullptr; if (rnd(2)) log->content_[len] = 'Z'; }
        memcpy((void*)before, (const void*)&shm->channels_, sizeof(*before));
        const char* names[] = { "screen", "file", "UDP", "empty", "hook" };
        cap_begin();
        if (kind == 4) EnterProcOutVirtualDevice(logger, c, d, *log); else EnterProcDevice(logger, c, d, *log);
        std::string out = cap_end();
        char what[200]; snprintf(what, 200, "%s device %d of channel %d, record of %d bytes, priority %d", names[kind], d, c, len, log->priority_);
        if (kind == 0)
        {
            size_t p = out.find(text);
            if (p == std::string::npos || !deco(out.substr(0, p)) || !deco(out.substr(p + text.size()))) FAIL("%s: output \"%s\" is not the text \"%s\"", what, esc(out.substr(0, 300)).c_str(), esc(text.substr(0, 300)).c_str());
        }
        else if (!out.empty()) FAIL("%s: writes to the screen: %s", what, esc(out.substr(0, 100)).c_str());
        if (kind == 1)
        {
            if (!fh.is_open()) FAIL("%s: file not open", what);
            fflush(fh.file_);
            char link[64], path[300] = { 0 }; snprintf(link, 64, "/proc/self/fd/%d", fileno(fh.file_)); if (readlink(link, path, 299) < 0) FAIL("readlink");
            std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string all = ss.str();
            if (all.size() < text.size() || all.compare(all.size() - text.size(), text.size(), text) != 0) FAIL("%s: the file does not end with the text", what);
            static std::map<std::string, size_t> sizes;
            if (all.size() != sizes[path] + text.size()) FAIL("%s: the file grew by %d bytes, expected %d", what, (int)(all.size() - sizes[path]), len);
            sizes[path] = all.size();
        }
        if (kind == 2)
        {
            if (!uh.is_open()) FAIL("%s: socket not open", what);
            static char b[70000]; ssize_t k = recv(rx, b, sizeof b, 0); int cnt = 0; std::string got;
            if (k >= 0) { got.assign(b, k); cnt++; while ((k = recv(rx, b, sizeof b, 0)) >= 0) cnt++; }
            if (cnt != (lost ? 0 : 1)) FAIL("%s: %d datagrams", what, cnt);
            if (!lost && got != text) FAIL("%s: datagram of %d bytes differs from the text of %d bytes", what, (int)got.size(), len);
        }
        if (kind == 4)
        {
            if (hooks != (want ? 1 : 0)) FAIL("%s: hook called %d times, expected %d", what, hooks, want);
            if (want && (hooked != log || hooktext != text || !hooknul)) FAIL("%s: hook got another text or no NUL behind it", what);
            if (want) snap.d().content_[len] = 0; else snap.d().content_[len] = log->content_[len];
        }
        if (memcmp((void*)&snap, (void*)log, sizeof(LogData)) != 0) FAIL("%s: the record was modified", what);
        SHMLogger::Channels& b = *before;
        auto inc = [&](int f, long long v) { b[c].device_log_fields_[d][f] = (long long)b[c].device_log_fields_[d][f] + v; };
        if (want) { inc(DEVICE_LOG_TOTAL_WRITE_LINE, 1); inc(DEVICE_LOG_TOTAL_WRITE_BYTE, len); inc(DEVICE_LOG_PRIORITY + log->priority_, len); if (lost) inc(DEVICE_LOG_TOTAL_LOSE_LINE, 1); }
        if (kind == 1) for (int f = DEVICE_LOG_CUR_FILE_SIZE; f <= DEVICE_LOG_LAST_TRY_CREATE_CNT; f++) b[c].device_log_fields_[d][f] = (long long)ch.device_log_fields_[d][f];
        if (memcmp((void*)before, (void*)&shm->channels_, sizeof(*before)) != 0)
        {
            for (int f = 0; f < DEVICE_LOG_MAX_ID; f++) if ((long long)b[c].device_log_fields_[d][f] != (long long)ch.device_log_fields_[d][f]) FAIL("%s: statistic %d is %lld, expected %lld", what, f, (long long)ch.device_log_fields_[d][f], (long long)b[c].device_log_fields_[d][f]);
            FAIL("%s: another statistic or setting changed", what);
        }
    }
    // records received over UDP are output as received
    Channel& ch = shm->channels_[0];
    memset((void*)&ch, 0, sizeof ch);
    ch.device_size_ = 1; ch.channel_type_ = CHANNEL_SYNC; ch.channel_state_ = CHANNEL_STATE_RUNNING;
    Device& dv = ch.devices_[0];
    int port = 0;
    { int s = socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a = sa; a.sin_port = 0; bind(s, (struct sockaddr*)&a, sizeof a); sl = sizeof a; getsockname(s, (struct sockaddr*)&a, &sl); port = a.sin_port; ::close(s); }
    UDPHandler& in = logger.udp_handles_[0];
    in.close(); in.open_ts_ = 0;
    dv.in_type_ = DEVICE_IN_UDP; dv.out_type_ = DEVICE_OUT_SCREEN; dv.config_fields_[DEVICE_CFG_ABLE] = 1; dv.config_fields_[DEVICE_CFG_UDP_IP] = sa.sin_addr.s_addr; dv.config_fields_[DEVICE_CFG_UDP_PORT] = port;
    memset(shm->ring_buffers_[0].udp_buffer_.content_, 'Q', LogData::LOG_SIZE);
    cap_begin(); EnterProcChannel(logger, 0); cap_end();
    if (in.is_open())
        for (int k = 0; k < 200; k++)
        {
            int len = 1 + rnd(k % 2 ? 20 : k % 20 == 0 ? LogData::LOG_SIZE : 2000);
            if (k == 40) len = LogData::LOG_SIZE - 1;
            if (k == 60) len = LogData::LOG_SIZE + 50;
            std::string t; for (int i = 0; i < len; i++) t += rnd(30) ? 'a' + rnd(26) : (char)rnd(256);
            struct sockaddr_in a = sa; a.sin_port = port;
            sendto(rx, t.data(), t.size(), 0, (struct sockaddr*)&a, sizeof a);
            cap_begin(); EnterProcChannel(logger, 0); std::string out = cap_end();
            std::string w = len >= LogData::LOG_SIZE ? t.substr(0, LogData::LOG_SIZE - 2) + "\n" : t;
            size_t p = out.find(w);
            if (p == std::string::npos || !deco(out.substr(0, p)) || !deco(out.substr(p + w.size()))) FAIL("record of %d bytes received over UDP is output as \"%s\" (%d bytes)", len, esc(out.substr(0, 100)).c_str(), (int)out.size());
            LogData& u = shm->ring_buffers_[0].udp_buffer_;
            (void)u;
        }
    printf("no violation in %ld records\n", n);
    return 0;
}
