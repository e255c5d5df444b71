#include "h.h"
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    SHMLogger* S = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger* L = new Logger();
    L->shm_ = S;
    S->channel_size_ = SHMLogger::MAX_CHANNEL_SIZE;
    const int LS = LogData::LOG_SIZE;
    std::vector<char> img(sizeof(LogData));
    for (long it = 0; it < n; it++)
    {
        int c = rnd(10) ? (int)rnd(S->channel_size_) : (int)rnd(5) - 2 + (rnd(2) ? S->channel_size_ : 0);
        int h = rnd(10) ? (int)rnd(RingBuffer::BUFFER_LEN) : (rnd(2) ? -1 - (int)rnd(3) : RingBuffer::BUFFER_LEN + (int)rnd(3));
        bool in = c >= 0 && c < S->channel_size_ && h >= 0 && h < RingBuffer::BUFFER_LEN;
        int cc = in ? c : 0, hh = in ? h : 0;
        Channel& ch = S->channels_[cc];
        RingBuffer& rb = S->ring_buffers_[cc];
        ch.channel_type_ = CHANNEL_ASYNC;
        ch.channel_state_ = rnd(8) ? (int)CHANNEL_STATE_RUNNING : (int)rnd(4);
        rb.read_idx_ = rb.proc_idx_ = rb.write_idx_ = hh; rb.hold_idx_ = (hh + 1) % RingBuffer::BUFFER_LEN;
        LogData& d = rb.buffer_[hh];
        for (int i = 0; i < LS; i++) d.content_[i] = (char)(1 + rnd(255));
        int len = argc > 3 && it < argc - 3 ? atoi(argv[3 + it]) : rnd(3) ? (int)rnd(LS + 1) : (rnd(2) ? LS - (int)rnd(5) : (int)rnd(4));
        if (len < 0 || len > LS) len = LS;
        d.content_len_ = len; d.priority_ = rnd(PRIORITY_MAX); d.data_mark_ = MARK_HOLD; d.category_ = 5; d.identify_ = 7; d.prefix_len_ = 3;
        memcpy(img.data(), (void*)&d, sizeof(d));
        int r = PushChannel(*L, c, h);
        bool ok = in && ch.channel_state_ == CHANNEL_STATE_RUNNING;
        if ((r == 0) != ok) FAIL("hand-over of slot %d of channel %d (state %d) returns %d", h, c, (int)ch.channel_state_, r);
        LogData& e = *(LogData*)img.data();
        if (ok)
        {
            int cut = std::min(len, LS - 2);
            e.content_[cut] = '\n'; e.content_[cut + 1] = 0; e.content_len_ = cut + 1; e.data_mark_ = MARK_READY;
        }
        if (memcmp(img.data(), (void*)&d, sizeof(d))) FAIL("hand-over of a record with %d bytes: length %d, last bytes %d %d %d", len, d.content_len_, d.content_[std::max(0, d.content_len_ - 2)], d.content_[std::max(0, d.content_len_ - 1)], d.content_len_ < LS ? d.content_[d.content_len_] : -1);
    }
    L->shm_ = nullptr;
    printf("ok %ld records\n", n);
}
