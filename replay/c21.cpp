// C21: who waits, for what, and until when; the queue code runs against scripted other threads, every access to a cursor or mark is a scheduling point
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#define FN_LOG_FORCE_FLUSH_QUE 3
#include "fibers.h"
#undef sleep_for
static std::function<void()> on_sleep;
namespace std { namespace this_thread { template<class T> inline void vp_rest(const T&) { if (on_sleep) on_sleep(); Fibers::get().yield(); } } }
#define sleep_for vp_rest
#include "h.h"
static SHMLogger* S; static Logger* L;
static const int N = RingBuffer::BUFFER_LEN;
struct Q
{
    int c, start, R, P, W, H; Channel& ch; RingBuffer& rb;
    Q(int c, bool async, int r, int p, int w, int h) : c(c), start((int)rnd(N)), R(r), P(p), W(w), H(h), ch(S->channels_[c]), rb(S->ring_buffers_[c])
    {
        ch.channel_type_ = async ? CHANNEL_ASYNC : CHANNEL_SYNC; ch.channel_state_ = CHANNEL_STATE_RUNNING; ch.channel_id_ = c; ch.device_size_ = 1; ch.devices_[0].out_type_ = DEVICE_OUT_EMPTY; ch.devices_[0].config_fields_[DEVICE_CFG_ABLE] = 1; ch.virtual_device_id_ = -1;
        for (auto& d : rb.buffer_) { d.data_mark_.v = MARK_INVALID; d.data_mark_.gen = 0; d.content_len_ = 5; memcpy(d.content_, "text\n", 6); d.priority_ = PRIORITY_INFO; d.channel_id_ = c; d.timestamp_ = 1; }
        rb.read_idx_.v = at(R); rb.proc_idx_.v = at(P); rb.write_idx_.v = at(W); rb.hold_idx_.v = at(H);
        rb.read_idx_.gen = rb.proc_idx_.gen = rb.write_idx_.gen = rb.hold_idx_.gen = 0;
        for (int q = R; q < W; q++) mark(q) = q < P && rnd(2) && q != R ? MARK_INVALID : MARK_READY;
        for (int q = W; q < H; q++) mark(q) = (int)rnd(3);
        if (H > W) mark(W) = (int)rnd(2);       // published up to the first record that is not complete
    }
    int at(int q) { return (start + q) % N; }
    int& mark(int q) { return rb.buffer_[at(q)].data_mark_.v; }
    int used() { return (rb.hold_idx_.v - rb.read_idx_.v + N) % N; }
    std::string str() { return "read " + std::to_string(rb.read_idx_.v) + " process " + std::to_string(rb.proc_idx_.v) + " publish " + std::to_string(rb.write_idx_.v) + " hold " + std::to_string(rb.hold_idx_.v); }
};
int main(int argc, char** argv)
{
    unsigned long long seed = atoll(argv[1]);
    rng.seed(seed);
    long n = atol(argv[2]), waits = 0;
    Fibers& X = Fibers::get();
    X.limit = 20000; X.len = 1 << 30;
    S = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    L = new Logger();
    for (long it = 0; it < n; it++)
    {
        memset((void*)S, 0, sizeof(SHMLogger));
        L->shm_ = S; S->channel_size_ = SHMLogger::MAX_CHANNEL_SIZE; L->logger_state_ = LOGGER_STATE_RUNNING;
        int c = (int)rnd(S->channel_size_);
        int a[4]; do { for (int& x : a) x = (int)rnd(N); std::sort(a, a + 4); } while (a[3] - a[0] > N - 1);
        uint64_t sched = seed * 1000003 + it;
        std::string where = ", schedule seed " + std::to_string(sched) + ")";
        int kind = (int)rnd(4);
        std::string bad;
        auto fail = [&](const std::string& s) { if (bad.empty()) bad = s; };
        if (kind == 0)      // log calls take slots
        {
            bool full = rnd(2);
            int w0 = (int)rnd(N), len = full ? N - 1 : (int)rnd(N - 1);
            int p = w0 ? (int)rnd(w0 + 1) : 0; if (p > len) p = len; int w = p + (int)rnd(len - p + 1);
            Q q(c, true, 0, p, w, len);
            std::string at = " (" + q.str() + ", " + std::to_string(N) + " slots" + where;
            int room = N - 1 - len, T = full ? 1 : 1 + (int)rnd(room), slept = 0;
            std::vector<int> got(T, -99);
            bool stop = rnd(2), released = false, stopped = false; int after = (int)rnd(12);
            on_sleep = [&]() {
                slept++;
                if (q.used() < N - 1) { fail("a log call waits although the queue has a free slot"); return; }
                if (stopped) { if (slept > after + 2) fail("a log call goes on waiting although the channel no longer runs"); return; }
                if (slept > after) { if (stop) { q.ch.channel_state_ = CHANNEL_STATE_WAITING_FINISH; stopped = true; } else { q.mark(0) = MARK_INVALID; q.rb.read_idx_.v = q.at(1); if (q.rb.proc_idx_.v == q.at(0)) q.rb.proc_idx_.v = q.at(1); if (q.rb.write_idx_.v == q.at(0)) q.rb.write_idx_.v = q.at(1); released = true; } }
            };
            std::vector<std::function<void()>> fs;
            for (int t = 0; t < T; t++) fs.push_back([&, t]() { got[t] = HoldChannel(*L, c, PRIORITY_INFO, 0, 0); });
            X.run(fs, sched);
            waits += slept;
            if (!bad.empty()) FAIL("%s%s", bad.c_str(), at.c_str());
            if (X.stuck) FAIL("a log call never returns: %d free slots, %s%s", N - 1 - q.used(), stopped ? "channel stopped" : released ? "a slot was released" : "nothing changes", at.c_str());
            for (int x : got) if (stopped ? x >= 0 : x < 0) FAIL("a log call returned %d %s%s", x, stopped ? "after the channel stopped with a full queue" : "although the channel runs and a slot is free", at.c_str());
        }
        else if (kind == 1 || kind == 2)    // handing over; output on a synchronous channel
        {
            bool async = kind == 1 && rnd(2);
            int T = kind == 2 && rnd(2) ? 2 + (int)rnd(2) : 1;
            if (T > 1) { a[0] = a[1]; }
            Q q(c, async, a[0] - a[0], a[1] - a[0], a[2] - a[0], a[3] - a[0]);
            int h = -1;
            if (kind == 1) { if (q.H == q.W) { if (q.H == N - 1) { it--; continue; } q.H++; q.rb.hold_idx_.v = q.at(q.H); } int p = q.W + (int)rnd(q.H - q.W); h = q.at(p); q.mark(p) = rnd(2) ? MARK_INVALID : MARK_HOLD; q.rb.buffer_[h].content_len_ = 4; }
            std::string at = " (" + q.str() + where;
            on_sleep = [&]() { fail(kind == 1 ? "handing a record over waits" : "output on a synchronous channel waits"); };
            std::vector<std::function<void()>> fs;
            for (int t = 0; t < T; t++) fs.push_back([&]() { if (kind == 1) PushChannel(*L, c, h); else EnterProcChannel(*L, c); });
            X.run(fs, sched);
            if (!bad.empty()) FAIL("%s%s", bad.c_str(), at.c_str());
            auto pos = [&](int i) { return (i - q.start + N) % N; };
            int R = pos(q.rb.read_idx_.v), P = pos(q.rb.proc_idx_.v), W = pos(q.rb.write_idx_.v), H = pos(q.rb.hold_idx_.v);
            if (!X.stuck && kind == 1 && W < H && q.mark(W) == MARK_READY) FAIL("a completed record stays unpublished, nobody will hand it over: %s now%s", q.str().c_str(), at.c_str());
            if (!X.stuck && !async && P < W) FAIL("a published record is left behind: %s now%s", q.str().c_str(), at.c_str());
            if (!X.stuck && !async && R < P && q.mark(R) == MARK_INVALID) FAIL("a finished slot is not given back, waiting log calls never see it: %s now%s", q.str().c_str(), at.c_str());
            if (X.stuck) FAIL("%s never returns%s", kind == 1 ? "handing a record over" : "output on a synchronous channel", at.c_str());
        }
        else                // the output thread
        {
            Q q(c, true, 0, 0, a[2] - a[0], a[3] - a[0]);
            std::string at = " (" + q.str() + " at the start" + where;
            int slept = 0, after = (int)rnd(10), lim = 0; bool stopped = false; int w = q.W, h = q.H;
            for (int p = q.R; p < q.W; p++) q.mark(p) = MARK_READY;
            on_sleep = [&]() {
                slept++;
                if (q.rb.proc_idx_.v != q.rb.write_idx_.v) { fail("the output thread rests while published records wait"); return; }
                if (q.rb.read_idx_.v != q.rb.proc_idx_.v) { fail("the output thread rests without having given finished slots back"); return; }
                if (stopped) { if (++lim > 3) fail("the output thread goes on after the channel was stopped and the queue written out"); return; }
                int r = w, k = (int)rnd(4);
                for (int i = 0; i < k; i++) { if (w == h && h - r < N - 1) { h++; q.rb.hold_idx_.v = q.at(h); } if (w < h && rnd(2)) { q.mark(w) = MARK_READY; w++; q.rb.write_idx_.v = q.at(w); } }
                if (slept > after) { q.ch.channel_state_ = CHANNEL_STATE_WAITING_FINISH; stopped = true; }
            };
            X.run({[&]() { EnterProcChannel(*L, c); }}, sched);
            waits += slept;
            if (!bad.empty()) FAIL("%s: %s now%s", bad.c_str(), q.str().c_str(), at.c_str());
            if (X.stuck) FAIL("the output thread never rests nor ends: %s now, %s%s", q.str().c_str(), stopped ? "channel stopped" : "channel running", at.c_str());
            if (!stopped) FAIL("the output thread ended although the channel runs%s", at.c_str());
        }
        on_sleep = nullptr;
    }
    L->shm_ = nullptr; L->logger_state_ = LOGGER_STATE_UNINIT;
    printf("ok %ld scenarios, %ld waits\n", n, waits);
}
