// C12: re-reading a configuration file on the real code, compared with the parsed file and the state before
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#include "h.h"
#include <unistd.h>
#include <utime.h>
#include <fcntl.h>
#include <thread>
#include <sys/stat.h>
static void quiet(bool on) { static int keep = -1; fflush(stdout); if (on) { keep = dup(1); int z = open("/dev/null", O_WRONLY); dup2(z, 1); close(z); } else { dup2(keep, 1); close(keep); } }
static std::string word() { std::string s; for (int i = 1 + (int)rnd(12); i > 0; i--) s += (char)('a' + rnd(26)); return s; }
static std::string dev(int d)
{
    static const char* kinds[] = {"file", "screen", "udp", "empty", "vir_device"};
    std::string y = "    -device: " + std::to_string(d) + "\n        disable: " + (rnd(3) ? "false" : "true") + "\n        out_type: " + kinds[rnd(5)] + "\n        file: " + word() + "\n        path: ./" + word() + "\n";
    if (rnd(2)) y += "        priority: " + std::string(rnd(2) ? "info" : "error") + "\n";
    if (rnd(2)) y += "        category: " + std::to_string(rnd(60)) + "\n        category_extend: " + std::to_string(rnd(9)) + "\n";
    if (rnd(2)) y += "        identify: " + std::to_string(rnd(60)) + "\n        identify_extend: " + std::to_string(rnd(9)) + "\n";
    if (rnd(2)) y += "        limit_size: " + std::to_string(rnd(900)) + "\n        rollback: " + std::to_string(rnd(9)) + "\n";
    if (rnd(3) == 0) y += "        rolldaily: true\n";
    return y;
}
static std::string conf(int n, int hot)
{
    std::string y = hot ? "- hot_update: true\n" : "- hot_update: false\n";
    for (int i = 0; i < n; i++)
    {
        y += "- channel: " + std::to_string(i) + "\n";
        if (rnd(3) == 0) y += "    sync: sync\n";
        if (rnd(2)) y += "    priority: " + std::string(rnd(2) ? "debug" : "fatal") + "\n";
        if (rnd(2)) y += "    category: " + std::to_string(rnd(60)) + "\n    category_extend: " + std::to_string(rnd(9)) + "\n";
        if (rnd(2)) y += "    identify_filter: 1,2," + std::to_string(rnd(60)) + "\n";
        int k = (int)rnd(4) ? (int)rnd(5) : (int)rnd(Channel::MAX_DEVICE_SIZE + 1);
        for (int d = 0; d < k; d++) y += dev(d);
    }
    return y;
}
static void put(const std::string& p, const std::string& t, long mtime) { FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); utimbuf u = {mtime, mtime}; utime(p.c_str(), &u); }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]), applied = 0;
    char dir[] = "./vp_hot_XXXXXX"; if (!mkdtemp(dir)) return 1;
    const std::string p = std::string(dir) + "/l.yaml";
    std::vector<char> img(sizeof(SHMLogger)), want(sizeof(SHMLogger));
    const int NC = SHMLogger::MAX_CHANNEL_SIZE;
    for (long it = 0; it < n; it++)
    {
        Logger* L = new Logger();
        std::string a;
        int na = 1 + (int)rnd(NC);
        long t0 = 1000000 + (long)rnd(1000);
        std::unique_ptr<LexState> chk(new LexState);
        do { a = conf(na, 1); std::string c = a; chk.reset(new LexState); if (ParseLogger(*chk, c) == 0) break; } while (true);
        put(p, a, t0);
        quiet(true); int ret = InitFromYMALFile(*L, p); quiet(false);
        if (ret) FAIL("a configuration that parses is refused: %d", ret);
        L->logger_state_ = LOGGER_STATE_RUNNING;
        for (int step = 0; step < 3; step++)
        {
            SHMLogger* S = L->shm_;
            int c = (int)rnd(S->channel_size_);
            for (int i = 0; i < NC; i++) { for (auto& x : S->channels_[i].channel_log_fields_) x = rnd(1000); for (auto& d : S->channels_[i].device_log_fields_) for (auto& x : d) x = rnd(1000); S->channels_[i].last_hot_check_ = rnd(6) ? 0 : time(nullptr) + 1; S->channels_[i].channel_state_ = (ChannelState)rnd(4); }
            for (auto& r : S->ring_buffers_) { r.read_idx_ = rnd(11); r.write_idx_ = rnd(11); r.hold_idx_ = rnd(11); r.proc_idx_ = rnd(11); for (auto& d : r.buffer_) d.data_mark_ = rnd(3); }
            int mode = (int)rnd(9);
            std::string b = conf(rnd(6) ? 1 + (int)rnd(NC) : 0, rnd(4));
            if (mode == 0) b = "- hot_update: true\n- channel: 0\n    nonsense: 1\n";
            if (mode == 1) b = rnd(2) ? "" : "- hot_update: true\n";
            bool same = mode == 2, gone = mode == 3, state = mode == 4, lock = mode == 5, off = mode == 6 && rnd(2);
            if (rnd(5) == 0) b = b.substr(0, rnd(b.size() + 1));
            long t1 = same ? S->channels_[c].yaml_mtime_ : t0 + 10 + step + (long)rnd(100);
            if (t1 == S->channels_[c].yaml_mtime_) same = true;
            if (gone) unlink(p.c_str()); else put(p, b, t1);
            L->logger_state_ = state ? LOGGER_STATE_CLOSING : LOGGER_STATE_RUNNING;
            L->hot_update_ = !off;
            std::unique_ptr<LexState> ls(new LexState);
            std::string copy = b;
            quiet(true); int pr = ParseLogger(*ls, copy); quiet(false);
            bool due = time(nullptr) - S->channels_[c].last_hot_check_ >= Logger::HOTUPDATE_INTERVEL;
            bool ok = due && !off && !gone && !same && !state && !lock && pr == 0 && ls->channel_size_ > c;
            memcpy(img.data(), (void*)S, sizeof(SHMLogger));
            bool hot0 = L->hot_update_;
            quiet(true);
            std::thread* th = nullptr; std::atomic<int> ph(0);
            if (lock) { th = new std::thread([&]() { L->state_lock_.lock(); ph = 1; while (ph != 2) usleep(100); L->state_lock_.unlock(); }); while (ph != 1) usleep(100); }
            if (lock) alarm(20);
            ret = HotUpdateLogger(*L, c);
            alarm(0);
            if (lock) { ph = 2; th->join(); delete th; }
            quiet(false);
            SHMLogger& W = *(SHMLogger*)want.data();
            memcpy(want.data(), img.data(), sizeof(SHMLogger));
            Channel& w = W.channels_[c]; Channel& g = S->channels_[c];
            w.last_hot_check_ = g.last_hot_check_; w.channel_log_fields_[CHANNEL_LOG_HOTUPDATE_CHECK] = (long long)g.channel_log_fields_[CHANNEL_LOG_HOTUPDATE_CHECK];
            if (ok)
            {
                applied++;
                Channel& s = ls->channels_[c];
                w.yaml_mtime_ = t1;
                w.channel_log_fields_[CHANNEL_LOG_HOTUPDATE_CHANGE] = (long long)g.channel_log_fields_[CHANNEL_LOG_HOTUPDATE_CHANGE];
                memcpy((void*)&w.config_fields_, (void*)&s.config_fields_, sizeof w.config_fields_);
                for (int d = 0; d < s.device_size_; d++) { if (d < w.device_size_) memcpy((void*)&w.devices_[d].config_fields_, (void*)&s.devices_[d].config_fields_, sizeof w.devices_[d].config_fields_); else { memcpy((void*)&w.devices_[d], (void*)&s.devices_[d], sizeof(Device)); w.device_size_++; } }
                if (ret) FAIL("a changed configuration is refused: %d (channel %d)\n%s", ret, c, b.c_str());
                if (L->hot_update_ != ls->hot_update_) FAIL("the hot update switch is not the one of the file");
            }
            else if (L->hot_update_ != hot0) FAIL("the hot update switch changed although the update was refused (%d)", ret);
            if (memcmp(want.data(), (void*)S, sizeof(SHMLogger)))
            {
                size_t i = 0; while (want[i] == ((char*)S)[i]) i++;
                FAIL("%s: byte %zu of the segment differs (channel at %zu): channel %d of %d, return %d, missing %d unchanged %d not running %d locked %d off %d parse %d; file:\n%s", ok ? "after an update" : "after a refused update", i, (size_t)((char*)&S->channels_[c] - (char*)S), c, S->channel_size_, ret, (int)gone, (int)same, (int)state, (int)lock, (int)off, pr, b.c_str());
            }
        }
        L->logger_state_ = LOGGER_STATE_UNINIT;
        UnloadSharedMemory(*L);
        delete L;
    }
    unlink(p.c_str()); rmdir(dir);
    printf("ok %ld configurations, %ld updates applied\n", n, applied);
}
