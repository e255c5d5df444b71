// C07 / C08: log calls and output threads of the real queue code under a random cooperative scheduler, small queue
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#define FN_LOG_FORCE_FLUSH_QUE 3
#include "fibers.h"
#include "h.h"
#include <unistd.h>
#include <sys/stat.h>
static SHMLogger* S; static Logger* L;
static const int N = RingBuffer::BUFFER_LEN, LS = LogData::LOG_SIZE;
struct Done { std::string text; long pos; };
static void wipe(RingBuffer& rb)
{
    rb.read_idx_.v = rb.proc_idx_.v = rb.write_idx_.v = rb.hold_idx_.v = 0; rb.read_idx_.gen = rb.proc_idx_.gen = rb.write_idx_.gen = rb.hold_idx_.gen = 0;
    for (auto& d : rb.buffer_) { d.data_mark_.v = 0; d.data_mark_.gen = 0; }
}
int main(int argc, char** argv)
{
    unsigned long long seed = atoll(argv[1]);
    rng.seed(seed);
    long n = atol(argv[2]), discarded = 0, records = 0;
    char dir[] = "./vp_ring_XXXXXX";
    if (!mkdtemp(dir)) return 1;
    Fibers& X = Fibers::get();
    X.len = N;
    S = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    L = new Logger();
    for (long it = 0; it < n; it++)
    {
        memset((void*)S, 0, sizeof(SHMLogger));
        L->shm_ = S; S->channel_size_ = SHMLogger::MAX_CHANNEL_SIZE; L->logger_state_ = LOGGER_STATE_RUNNING;
        int c = (int)rnd(S->channel_size_);
        bool async = rnd(3) != 0;
        for (int i = 0; i < S->channel_size_; i++) { Channel& ch = S->channels_[i]; ch.channel_id_ = i; ch.channel_state_ = CHANNEL_STATE_RUNNING; ch.channel_type_ = i == c && async ? CHANNEL_ASYNC : CHANNEL_SYNC; ch.virtual_device_id_ = -1; }
        Channel& ch = S->channels_[c];
        RingBuffer& rb = S->ring_buffers_[c];
        wipe(rb);
        int start = (int)rnd(N);
        rb.read_idx_.v = rb.proc_idx_.v = rb.write_idx_.v = rb.hold_idx_.v = start;
        ch.device_size_ = 1;
        Device& dv = ch.devices_[0];
        dv.device_id_ = 0; dv.out_type_ = DEVICE_OUT_FILE; dv.config_fields_[DEVICE_CFG_ABLE] = 1;
        std::string path = std::string(dir) + "/q.log";
        unlink(path.c_str());
        snprintf(dv.out_path_, sizeof dv.out_path_, "%s", dir); snprintf(dv.out_file_, sizeof dv.out_file_, "q");
        FileHandler& fh = L->file_handles_[c * Channel::MAX_DEVICE_SIZE];
        if (fh.is_open()) fh.close();
        int T = 1 + (int)rnd(5), M = 1 + (int)rnd(14);
        std::vector<int> owner(N, -1);
        std::vector<long> next(N);
        for (int i = 0; i < N; i++) next[i] = i >= start ? i - start : i - start + N;
        std::vector<Done> recs;
        std::string bad;
        auto fail = [&](const std::string& s) { if (bad.empty()) bad = s; };
        int live = T;
        std::vector<std::function<void()>> fs;
        int maxq = 0;
        for (int t = 0; t < T; t++)
            fs.push_back([&, t]() {
                for (int m = 0; m < M; m++)
                {
                    bool stream = rnd(4) == 0;
                    std::string body = "<" + std::to_string(t) + ":" + std::to_string(m) + std::string(rnd(20), 'a' + t) + ">";
                    if (stream)
                    {
                        LogStream ls(*L, c, PRIORITY_INFO, 0, 0, "f", 1, 1, "g", 1, LOG_PREFIX_NULL);
                        if (!ls.log_data_) { fail("a running channel refused a record"); continue; }
                        int h = ls.hold_idx_;
                        if (owner[h] >= 0) fail("slot " + std::to_string(h) + " given to two log calls");
                        owner[h] = t;
                        long q = next[h]; next[h] += N;
                        long lines = ch.device_log_fields_[0][DEVICE_LOG_TOTAL_WRITE_LINE];
                        if (async && lines < q - N + 1) fail("slot " + std::to_string(h) + " given away with its record not written out");
                        for (char x : body) { ls << x; if (rnd(8) == 0) X.yield(); }
                        LogStream moved(std::move(ls));
                        recs.push_back({body, q});
                        owner[h] = -1;
                        continue;
                    }
                    int h = HoldChannel(*L, c, PRIORITY_INFO, 0, 0);
                    if (h < 0) { fail("a running channel refused a record"); continue; }
                    if (h >= N) { fail("slot outside the queue"); return; }
                    if (owner[h] >= 0) fail("slot " + std::to_string(h) + " given to two log calls");
                    owner[h] = t;
                    int used = (rb.hold_idx_.v - rb.read_idx_.v + N) % N; if (used > maxq) maxq = used;
                    long q = next[h]; next[h] += N;
                    long lines = ch.device_log_fields_[0][DEVICE_LOG_TOTAL_WRITE_LINE];
                    if (async && lines < q - N + 1) fail("slot " + std::to_string(h) + " given away with its record not written out");
                    LogData& d = rb.buffer_[h];
                    InitLogData(*L, d, c, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL);
                    for (size_t i = 0; i < body.size(); i++) { d.content_[d.content_len_++] = body[i]; if (rnd(8) == 0) X.yield(); }
                    if (std::string(d.content_, d.content_len_) != body) fail("the record in slot " + std::to_string(h) + " changed under its owner: " + std::string(d.content_, std::min(std::max(d.content_len_, 0), 60)));
                    recs.push_back({body, q});
                    owner[h] = -1;
                    if (PushChannel(*L, c, h) != 0) fail("publishing was refused");
                }
                live--;
            });
        bool early = rnd(3) == 0;
        if (async) fs.push_back([&]() { EnterProcChannel(*L, c); });
        fs.push_back([&]() { while (live > 0) X.yield(); if (!early && async) for (int i = 0; i < 2000 && rb.write_idx_.v != rb.read_idx_.v; i++) X.yield(); if (async) ch.channel_state_ = CHANNEL_STATE_WAITING_FINISH; });
        X.run(fs, seed * 1000003 + it);
        std::string got;
        if (fh.is_open()) { fh.flush(); }
        if (FILE* f = fopen(path.c_str(), "rb")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) got.append(b, k); fclose(f); }
        if (X.aba) { discarded++; continue; }
        std::string where = std::string(async ? "asynchronous" : "synchronous") + " channel, " + std::to_string(T) + " threads, " + std::to_string(M) + " records each, schedule seed " + std::to_string(seed * 1000003 + it);
        if (!bad.empty()) FAIL("%s (%s)", bad.c_str(), where.c_str());
        if (X.stuck) FAIL("no progress: cursors read %d process %d publish %d hold %d (%s)", rb.read_idx_.v, rb.proc_idx_.v, rb.write_idx_.v, rb.hold_idx_.v, where.c_str());
        if ((long)recs.size() != (long)T * M) FAIL("%zu records accepted of %d (%s)", recs.size(), T * M, where.c_str());
        std::sort(recs.begin(), recs.end(), [](const Done& a, const Done& b) { return a.pos < b.pos; });
        std::string want;
        std::map<std::string, int> cnt;
        for (auto& r : recs) { want += r.text + "\n"; cnt[r.text]++; }
        if (async) { if (got != want) FAIL("output differs from the records in queue order: %s, expected %s (%s)", esc(got.substr(0, 300)).c_str(), esc(want.substr(0, 300)).c_str(), where.c_str()); }
        else
        {
            std::string line;
            for (char x : got) { if (x == '\n') { cnt[line]--; line.clear(); } else line += x; }
            for (auto& p : cnt) if (p.second) FAIL("record %s output %s (%s), output %s", p.first.c_str(), p.second > 0 ? "too rarely" : "too often", where.c_str(), (esc(got.substr(0, 400)) + " lines " + std::to_string((long)ch.device_log_fields_[0][DEVICE_LOG_TOTAL_WRITE_LINE]) + " push " + std::to_string((long)ch.channel_log_fields_[CHANNEL_LOG_PUSH]) + " proc " + std::to_string((long)ch.channel_log_fields_[CHANNEL_LOG_PROCESSED])+" open "+std::to_string(fh.is_open())).c_str());
        }
        int e = (start + T * M) % N;
        if (rb.read_idx_.v != e || rb.proc_idx_.v != e || rb.write_idx_.v != e || rb.hold_idx_.v != e) FAIL("queue not empty at the end: read %d process %d publish %d hold %d, expected %d (%s)", rb.read_idx_.v, rb.proc_idx_.v, rb.write_idx_.v, rb.hold_idx_.v, e, where.c_str());
        for (int i = 0; i < N; i++) if (rb.buffer_[i].data_mark_.v) FAIL("slot %d still marked %d (%s)", i, rb.buffer_[i].data_mark_.v, where.c_str());
        records += T * M;
    }
    std::string path = std::string(dir) + "/q.log";
    for (auto& h : L->file_handles_) if (h.is_open()) h.close();
    unlink(path.c_str()); rmdir(dir);
    L->shm_ = nullptr; L->logger_state_ = LOGGER_STATE_UNINIT;
    printf("ok %ld schedules, %ld records, %ld schedules with a full queue turn inside one retry left out\n", n, records, discarded);
}
