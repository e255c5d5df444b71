// C15: start / stop in any order on the real code, with failing and late thread creation, slots held over a stop, and a stop while a changed configuration is read
#include <thread>
#include <mutex>
#include <chrono>
#include <atomic>
#include <system_error>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
static std::atomic<int> vp_fail(-1), vp_late(-1);
namespace std
{
    struct vp_thread : public thread
    {
        vp_thread() noexcept {}
        template<class F, class... A> explicit vp_thread(F&& f, A&&... a) : thread(make(std::forward<F>(f), std::forward<A>(a)...)) {}
        vp_thread(vp_thread&& o) noexcept : thread(std::move((thread&)o)) {}
        vp_thread& operator=(vp_thread&& o) noexcept { (thread&)*this = std::move((thread&)o); return *this; }
        template<class F, class... A> static thread make(F&& f, A&&... a)
        {
            int k = vp_fail.load(); if (k >= 0) { vp_fail = k - 1; if (k == 0) throw system_error(make_error_code(errc::resource_unavailable_try_again)); }
            k = vp_late.load(); if (k >= 0) { vp_late = k - 1; if (k == 0) return late(std::forward<F>(f), std::forward<A>(a)...); }
            return thread(std::forward<F>(f), std::forward<A>(a)...);
        }
        template<class F, class L> static thread late(F f, L l, int c) { return thread([=]() { timespec t = {0, 60000000}; nanosleep(&t, nullptr); f(l, c); }); }
        template<class F, class... A> static thread late(F&& f, A&&... a) { return thread(std::forward<F>(f), std::forward<A>(a)...); }
    };
    namespace this_thread { template<class T> inline void vp_sleep_for(const T&) { timespec t = {0, 100000}; nanosleep(&t, nullptr); } }
}
#include <string>
#include <array>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <random>
#include <sstream>
#include <iostream>
#include <functional>
#include <unordered_map>
#include <memory>
#define thread vp_thread
#define sleep_for vp_sleep_for
#include "h.h"
#undef thread
#undef sleep_for
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
static char doing[400] = "";
static int keep = -1;
static void hang(int) { if (keep >= 0) dup2(keep, 1); printf("FAILED: %s did not return within 20 s\n", doing); fflush(stdout); _Exit(3); }
static void quiet(bool on) { fflush(stdout); if (on) { keep = dup(1); int z = open("/dev/null", O_WRONLY); dup2(z, 1); close(z); } else { dup2(keep, 1); close(keep); keep = -1; } }
#define AT(...) do { snprintf(doing, sizeof doing, __VA_ARGS__); alarm(20); } while (0)
template<class F> static int call(F f) { quiet(true); int r = f(); quiet(false); alarm(0); return r; }
static void check(Logger& L, int st, const char* what)
{
    if (L.logger_state_ != st) FAIL("%s: logger state %u, expected %d", what, (unsigned)L.logger_state_, st);
    if (!L.shm_) return;
    int n = L.shm_->channel_size_;
    for (int c = 0; c < n && c < SHMLogger::MAX_CHANNEL_SIZE; c++)
    {
        Channel& ch = L.shm_->channels_[c];
        int want = st == LOGGER_STATE_RUNNING ? CHANNEL_STATE_RUNNING : CHANNEL_STATE_NULL;
        if (ch.channel_state_ != want) FAIL("%s: channel %d in state %d, expected %d", what, c, (int)ch.channel_state_, want);
        bool thd = L.async_threads[c].joinable();
        if (thd != (st == LOGGER_STATE_RUNNING && ch.channel_type_ == CHANNEL_ASYNC)) FAIL("%s: channel %d %s a thread", what, c, thd ? "has" : "has not");
    }
}
static void clean(Logger& L, const char* what)
{
    for (int c = 0; c < L.shm_->channel_size_; c++)
    {
        RingBuffer& r = L.shm_->ring_buffers_[c];
        if (r.read_idx_ || r.proc_idx_ || r.write_idx_ || r.hold_idx_) FAIL("%s: queue %d not empty: read %d process %d publish %d hold %d", what, c, (int)r.read_idx_, (int)r.proc_idx_, (int)r.write_idx_, (int)r.hold_idx_);
        for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) if (r.buffer_[i].data_mark_) FAIL("%s: slot %d of queue %d still marked %d", what, i, c, (int)r.buffer_[i].data_mark_);
    }
    for (auto& h : L.file_handles_) if (h.is_open()) FAIL("%s: a file is still open", what);
    for (auto& h : L.udp_handles_) if (h.is_open()) FAIL("%s: a socket is still open", what);
}
static std::string yaml(int n, bool async0, const std::string& dir, bool hot)
{
    std::string y = hot ? " - hot_update: true\n" : "";
    for (int i = 0; i < n; i++) y += " - channel: " + std::to_string(i) + "\n" + ((i == 0) != async0 ? "    -sync: sync\n" : "") + "    -device: 0\n        disable: false\n        out_type: file\n        path: " + dir + "\n        file: f" + std::to_string(i) + "\n";
    return y;
}
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]), starts = 0, rejected = 0;
    signal(SIGALRM, hang);
    char dir[] = "./vp_life_XXXXXX"; if (!mkdtemp(dir)) return 1;
    const int NC = SHMLogger::MAX_CHANNEL_SIZE;
    for (long it = 0; it < n / 20 + 1; it++)
    {
        Logger* L = new Logger();
        bool real = it % 4 == 0; // configured by text; otherwise by hand with arbitrary channel counts and types
        AT("InitFromYMAL");
        if (real) { int k = 1 + (int)rnd(NC); bool a = rnd(2); if (call([&]() { return InitFromYMAL(*L, yaml(k, a, dir, false), ""); })) FAIL("a valid configuration is refused"); }
        else { L->shm_ = new SHMLogger(); ResetSHMLogger(*L->shm_); }
        std::vector<std::pair<int, int>> held;
        bool running = false;
        int size0 = L->shm_->channel_size_;
        for (int op = 0; op < 20; op++)
        {
            if (!running && !real)
            {
                L->shm_->channel_size_ = rnd(4) ? 1 + (int)rnd(NC) : (int)rnd(7) - 3;
                for (int c = 0; c < NC; c++) { Channel& ch = L->shm_->channels_[c]; ch.channel_id_ = c; ch.channel_type_ = rnd(8) ? (rnd(2) ? CHANNEL_ASYNC : CHANNEL_SYNC) : (int)rnd(9); ch.device_size_ = 1; ch.devices_[0].device_id_ = 0; ch.devices_[0].out_type_ = DEVICE_OUT_FILE; ch.devices_[0].config_fields_[DEVICE_CFG_ABLE] = 1; ch.virtual_device_id_ = -1; snprintf(ch.devices_[0].out_path_, sizeof ch.devices_[0].out_path_, "%s", dir); snprintf(ch.devices_[0].out_file_, sizeof ch.devices_[0].out_file_, "f%d", c); }
            }
            size0 = L->shm_->channel_size_;
            bool valid = size0 > 0 && size0 <= NC;
            int asyncs = 0; bool types = true;
            for (int c = 0; c < size0 && c < NC; c++) { int t = L->shm_->channels_[c].channel_type_; asyncs += t == CHANNEL_ASYNC; types = types && (t == CHANNEL_ASYNC || t == CHANNEL_SYNC); }
            switch (rnd(6))
            {
            case 0: case 1:
            {
                int mode = running ? 0 : (int)rnd(5);
                int at = (int)rnd(NC);
                vp_fail = mode == 1 ? at : -1; vp_late = mode == 2 ? at : -1;
                bool hurt = (mode == 1) && at < asyncs;
                AT("StartLogger (running %d, %d channels, %d asynchronous, thread %d %s)", (int)running, size0, asyncs, at, mode == 1 ? "cannot be created" : mode == 2 ? "starts late" : "normal");
                int ret;
                try { ret = call([&]() { return StartLogger(*L); }); } catch (...) { quiet(false); FAIL("%s threw", doing); }
                vp_fail = vp_late = -1;
                if (running) { if (ret == 0) FAIL("%s accepted", doing); rejected++; break; }
                if (ret == 0 && (!valid || !types || hurt)) FAIL("%s succeeded", doing);
                if (ret != 0 && valid && types && mode != 1 && mode != 2) FAIL("%s failed: %d", doing, ret);
                running = ret == 0;
                starts += running; rejected += !running;
                check(*L, running ? LOGGER_STATE_RUNNING : LOGGER_STATE_UNINIT, doing);
                break;
            }
            case 2: case 3:
            {
                AT("StopLogger (running %d, %d channels)", (int)running, size0);
                if (running && rnd(4) == 0) { int c = (int)rnd(size0); L->udp_handles_[c * Channel::MAX_DEVICE_SIZE + 1].open(); }
                int ret = call([&]() { return StopLogger(*L); });
                if (running != (ret == 0)) FAIL("%s returned %d", doing, ret);
                if (running) { clean(*L, doing); running = false; }
                for (auto& h : held) { LogData& d = L->shm_->ring_buffers_[h.first].buffer_[h.second]; InitLogData(*L, d, h.first, 0, 0, 0, 0); AT("a late hand-over"); if (!call([&]() { return PushChannel(*L, h.first, h.second); })) FAIL("a stopped channel accepted a record"); }
                held.clear();
                check(*L, LOGGER_STATE_UNINIT, doing);
                break;
            }
            case 4:
            {
                if (!running) break;
                for (int k = (int)rnd(20); k > 0; k--)
                {
                    int c = (int)rnd(size0);
                    bool blocked = false;
                    for (auto& h : held) blocked = blocked || (h.first == c && L->shm_->channels_[c].channel_type_ == CHANNEL_SYNC);
                    AT("a log call");
                    if (blocked) continue;
                    LogStream ls(*L, c, PRIORITY_ERROR, 0, 0, "f", 1, 1, "g", 1, LOG_PREFIX_NULL);
                    if (!ls.log_data_) FAIL("a running channel refused a record");
                    ls << "record";
                    alarm(0);
                }
                break;
            }
            case 5:
            {
                if (!running || held.size() > 5) break;
                int c = (int)rnd(size0);
                AT("HoldChannel");
                int h = call([&]() { return HoldChannel(*L, c, PRIORITY_ERROR, 0, 0); });
                if (h < 0) FAIL("a running channel refused a slot");
                held.push_back({c, h});
                break;
            }
            }
            alarm(0);
        }
        AT("the final stop");
        if (running) { call([&]() { return StopLogger(*L); }); clean(*L, doing); check(*L, LOGGER_STATE_UNINIT, doing); }
        delete L->shm_; L->shm_ = nullptr;
        delete L;
    }
    // stop while the output thread reads a changed configuration: the configuration is a FIFO, written after the stop has begun
    for (int k = 0; k < 3; k++)
    {
        std::string ff = std::string(dir) + "/conf";
        mkfifo(ff.c_str(), 0600);
        Logger* L = new Logger();
        std::string y = yaml(1, true, dir, true);
        AT("InitFromYMAL");
        call([&]() { return InitFromYMAL(*L, y, ff); });
        AT("StartLogger");
        if (call([&]() { return StartLogger(*L); })) FAIL("start refused");
        alarm(20);
        int w = open(ff.c_str(), O_WRONLY);
        int ret = -1;
        AT("StopLogger while a changed configuration is read");
        usleep(5000);
        quiet(true);
        std::thread st([&]() { ret = StopLogger(*L); });
        usleep(20000);
        if (write(w, y.data(), y.size())) {}
        close(w);
        st.join();
        quiet(false);
        alarm(0);
        if (ret) FAIL("%s returned %d", doing, ret);
        clean(*L, doing);
        check(*L, LOGGER_STATE_UNINIT, doing);
        UnloadSharedMemory(*L);
        delete L;
        unlink(ff.c_str());
    }
    // start by text and by file
    for (int k = 0; k < 12; k++)
    {
        Logger* L = new Logger();
        bool good = rnd(2), file = rnd(2);
        std::string y = good ? yaml(1 + (int)rnd(NC), rnd(2), dir, false) : (rnd(2) ? std::string("") : std::string(" - channel: 77\n"));
        std::string p = std::string(dir) + "/c.yaml";
        if (file) { FILE* f = fopen(p.c_str(), "wb"); fwrite(y.data(), 1, y.size(), f); fclose(f); }
        AT("%s with a %s configuration", file ? "LoadAndStartLogger" : "ParseAndStartLogger", good ? "valid" : "bad");
        int ret = call([&]() { return file ? LoadAndStartLogger(*L, p) : ParseAndStartLogger(*L, y); });
        if ((ret == 0) != good) FAIL("%s returned %d", doing, ret);
        check(*L, good ? LOGGER_STATE_RUNNING : LOGGER_STATE_UNINIT, doing);
        if (good)
        {
            AT("a second start of a running logger");
            ret = call([&]() { return file ? LoadAndStartLogger(*L, p) : ParseAndStartLogger(*L, y); });
            if (ret == 0) FAIL("%s returned 0", doing);
            check(*L, LOGGER_STATE_RUNNING, doing);
            AT("StopLogger"); if (call([&]() { return StopLogger(*L); })) FAIL("a running logger cannot be stopped");
            clean(*L, doing);
        }
        std::unique_lock<std::recursive_mutex> lk;
        bool free_ = false; std::thread t([&]() { free_ = L->state_lock_.try_lock(); if (free_) L->state_lock_.unlock(); }); t.join();
        if (!free_) FAIL("%s left the state lock held", doing);
        UnloadSharedMemory(*L);
        delete L;
        unlink(p.c_str());
    }
    for (int c = 0; c < NC; c++) { std::string p = std::string(dir) + "/f" + std::to_string(c) + ".log"; unlink(p.c_str()); }
    rmdir(dir);
    printf("ok %ld starts, %ld refused\n", starts, rejected);
}
