// C09: LoadSharedMemory / UnloadSharedMemory of the real code on stand-in segments of exact size, against a reference recovery
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#include <sys/ipc.h>
#include <sys/shm.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <vector>
#include <string>
static int vp_shmget(long long key, size_t size, int flags);
static void* vp_shmat(int id, const void* at, int flags);
static int vp_shmdt(const void* p);
static int vp_shmctl(int id, int cmd, void* buf);
#define shmget vp_shmget
#define shmat vp_shmat
#define shmdt vp_shmdt
#define shmctl vp_shmctl
#include "h.h"
struct Seg { char* mem; size_t size; int id; bool exists, attached; int removed; } G;
static int failget, failat, err, dets, badcall;
static int vp_shmget(long long key, size_t size, int flags)
{
    (void)key;
    if (failget) { errno = EACCES; return -1; }
    if (flags & IPC_CREAT)
    {
        if (G.exists) { if (flags & IPC_EXCL) { errno = EEXIST; return -1; } return G.id; }
        G.mem = (char*)calloc(1, size); G.size = size; G.exists = true; return G.id;
    }
    if (!G.exists) { errno = ENOENT; return -1; }
    return G.id;
}
static void* vp_shmat(int id, const void*, int) { if (failat || id != G.id) { errno = ENOMEM; return (void*)-1; } G.attached = true; return G.mem; }
static int vp_shmdt(const void* p) { if (p != (void*)G.mem || !G.attached) { badcall++; return -1; } dets++; return 0; }
static int vp_shmctl(int id, int cmd, void*) { if (id != G.id || cmd != IPC_RMID || !G.exists) { badcall++; return -1; } G.removed++; return 0; }
static void hang(int) { static const char m[] = "C09: LoadSharedMemory does not end\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
static const int N = RingBuffer::BUFFER_LEN, LS = LogData::LOG_SIZE;
static int bad(const char* what, long it) { printf("C09: %s (input %ld)\n", what, it); return 1; }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    signal(SIGALRM, hang);
    int devnull = dup(1);
    (void)devnull;
    for (long it = 0; it < n; it++)
    {
        alarm(20);
        int kind = (int)rnd(12);            // 0 heap 1 new 2 foreign small 3 wrong id 4 wrong size 5 bad cursor 6 too many channels 7.. sound
        Logger* L = (Logger*)0;
        L = new Logger();
        G = Seg(); G.id = (int)rnd(5); failget = failat = 0; dets = badcall = 0;
        L->shm_key_ = kind == 0 ? -(long long)rnd(2) : 1 + (long long)rnd(1000);
        std::vector<char> before;
        SHMLogger* S = nullptr;
        bool sound = false;
        if (kind == 1 && rnd(4) == 0) (rnd(2) ? failget : failat) = 1;
        if (kind == 2)
        {
            size_t sz = 16 + rnd(64);
            G.mem = (char*)calloc(1, sz); G.size = sz; G.exists = true;
            ((int*)G.mem)[0] = G.id; ((int*)G.mem)[1] = (int)rnd(3) * 7;
        }
        if (kind >= 3)
        {
            G.mem = (char*)calloc(1, sizeof(SHMLogger)); G.size = sizeof(SHMLogger); G.exists = true;
            S = (SHMLogger*)G.mem;
            S->shm_id_ = G.id; S->shm_size_ = sizeof(SHMLogger); S->channel_size_ = 1 + (int)rnd(SHMLogger::MAX_CHANNEL_SIZE);
            for (int c = 0; c < SHMLogger::MAX_CHANNEL_SIZE; c++)
            {
                RingBuffer& rb = S->ring_buffers_[c];
                int r = (int)rnd(N), q = (int)rnd(N), w = (int)rnd(q + 1), p = (int)rnd(w + 1);
                rb.read_idx_ = r; rb.proc_idx_ = (r + p) % N; rb.write_idx_ = (r + w) % N; rb.hold_idx_ = (r + q) % N;
                for (int i = 0; i < N; i++)
                {
                    LogData& l = rb.buffer_[i];
                    l.data_mark_ = (int)rnd(3);
                    static const int special[] = {0, 1, LS - 22, LS - 21, LS - 20, LS - 19, LS - 18, LS - 3, LS - 2, LS - 1, LS, -1, -LS, 1 << 30, -(1 << 30)};
                    l.content_len_ = rnd(2) ? (int)rnd(LS) : special[rnd(sizeof special / sizeof *special)];
                    l.priority_ = (int)rnd(6); l.channel_id_ = c; l.category_ = (int)rnd(9);
                    unsigned x = (unsigned)rnd(1 << 30);
                    for (int b = 0; b < LS; b++) { x = x * 1664525u + 1013904223u; l.content_[b] = (char)(x >> 24); }
                }
            }
            if (kind == 3) S->shm_id_ = G.id + 1 + (int)rnd(3);
            if (kind == 4) S->shm_size_ = (int)rnd(2) ? (int)sizeof(SHMLogger) - 1 - (int)rnd(50) : (int)sizeof(SHMLogger) + 1 + (int)rnd(50);
            if (kind == 5)
            {
                int c = (int)rnd(S->channel_size_);
                static const int wild[] = {-1, N, N + 1, 1 << 30, -(1 << 30), 2 * N};
                int v = wild[rnd(6)];
                RingBuffer& rb = S->ring_buffers_[c];
                switch (rnd(3)) { case 0: rb.read_idx_ = v; break; case 1: rb.write_idx_ = v; break; default: rb.hold_idx_ = v; }
            }
            if (kind == 6) S->channel_size_ = SHMLogger::MAX_CHANNEL_SIZE + 1 + (int)rnd(100);
            sound = kind >= 7;
        }
        if (G.mem) before.assign(G.mem, G.mem + G.size);
        fflush(stdout);
        int saved = dup(1); FILE* nul = freopen("/dev/null", "w", stdout);
        int ret = LoadSharedMemory(*L);
        fflush(stdout); dup2(saved, 1); close(saved); (void)nul;
        bool fail = kind >= 2 && kind <= 6 ? true : (failget || failat) ? true : false;
        if (fail)
        {
            if (ret == 0 || L->shm_ != nullptr) return bad("a segment that must be refused is accepted", it);
            if (!before.empty() && memcmp(&before[0], G.mem, G.size) != 0) return bad("a refused segment was changed", it);
        }
        else
        {
            if (ret != 0 || L->shm_ == nullptr) return bad("a usable queue is refused", it);
            if (kind <= 1)
            {
                SHMLogger* z = L->shm_;
                if (kind == 1 && ((char*)z != G.mem || z->shm_id_ != G.id || z->shm_size_ != (int)sizeof(SHMLogger))) return bad("a new segment is not labelled", it);
                if (z->channel_size_ != 0) return bad("new storage has channels", it);
                for (int c = 0; c < SHMLogger::MAX_CHANNEL_SIZE; c++)
                {
                    RingBuffer& rb = z->ring_buffers_[c];
                    if (rb.read_idx_ || rb.write_idx_ || rb.hold_idx_ || rb.proc_idx_) return bad("a new queue is not empty", it);
                    for (auto& l : rb.buffer_) if (l.data_mark_) return bad("a new queue has used slots", it);
                }
            }
            if (sound)
            {
                std::vector<char> expv(before);
                SHMLogger* E = (SHMLogger*)&expv[0];
                std::string mark = "!!!core recover!!!";
                for (int c = 0; c < E->channel_size_; c++)
                {
                    RingBuffer& rb = E->ring_buffers_[c];
                    for (int i = rb.write_idx_; i != rb.hold_idx_; i = (i + 1) % N)
                    {
                        LogData& l = rb.buffer_[i];
                        int len = l.content_len_, room = LS - (int)mark.size() - 2;
                        len = len < 0 ? 0 : len > room ? room : len;
                        memcpy(l.content_ + len, (mark + "\n").c_str(), mark.size() + 2);
                        l.content_len_ = len + (int)mark.size() + 1; l.data_mark_ = MARK_READY; l.priority_ = PRIORITY_FATAL;
                    }
                    rb.write_idx_ = rb.hold_idx_.load(); rb.proc_idx_ = rb.read_idx_.load();
                }
                if (memcmp(&expv[0], G.mem, G.size) != 0)
                {
                    size_t o = 0; while (expv[o] == G.mem[o]) o++;
                    printf("C09: recovery differs from the reference at offset %zu of the segment (input %ld, seed %s)\n", o, it, argv[1]);
                    return 1;
                }
            }
            bool heap = kind == 0;
            if (rnd(2)) L->shm_key_ = rnd(2) ? 0 : 77;       // reconfigured meanwhile
            UnloadSharedMemory(*L);
            if (badcall || L->shm_ != nullptr || dets != (heap ? 0 : 1) || G.removed != (heap ? 0 : 1)) return bad("the storage is not released the way it was obtained", it);
        }
        L->shm_ = nullptr;
        if (G.mem) free(G.mem);
        delete L;
    }
    printf("C09: %ld inputs agree\n", n);
    return 0;
}
