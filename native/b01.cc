#include "vh.h"
#include <deque>
#include <list>
#include <sanitizer/allocator_interface.h>
#include <google/protobuf/io/zero_copy_stream.h>
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/tran_buf_pool.h>
using namespace vh; using namespace sofa::pbrpc;

static std::string drain(ReadBuffer& rb, bool chunky, const std::string& model) {
    // read everything with Next/BackUp/Skip mixed; result must be the model
    std::string got; const void* d; int n;
    while (true) {
        int op = chunky ? rnd(4) : 0;
        if (op == 3) {
            int k = rnd(5000); int64_t before = rb.ByteCount();
            CHK(before == (int64_t)got.size(), "read-count", "ByteCount " + S(before) + " after reading " + S(got.size()));
            bool ok = rb.Skip(k); int64_t left = (int64_t)model.size() - (int64_t)got.size();
            CHK(ok == (k <= left), "skip-result", "Skip(" + S(k) + ") with " + S(left) + " left gives " + S(ok));
            int64_t adv = std::min<int64_t>(k, left);
            CHK(rb.ByteCount() == before + adv, "skip-count", "Skip advanced " + S(rb.ByteCount() - before));
            got += model.substr(got.size(), adv);
            continue;
        }
        if (!rb.Next(&d, &n)) break;
        CHK(n > 0, "read-empty-chunk", "Next gave size " + S(n));
        int keep = n;
        if (op == 1) { keep = rnd(n + 1); rb.BackUp(n - keep); }
        got.append((const char*)d, keep);
        if (got.size() > model.size()) { fail("read-more", "read more than written"); return got; }
        CHK(model.compare(0, got.size(), got) == 0, "read-bytes", "bytes read differ from bytes written");
        CHK(rb.ByteCount() == (int64_t)got.size(), "read-count", "ByteCount " + S(rb.ByteCount()));
        if (!g_failkeys.empty()) return got;
    }
    return got;
}

static void one(uint64_t seed) {
    rng.seed(seed);
    Case("seed " + S(seed));
    size_t base = __sanitizer_get_current_allocated_bytes();
    std::string why;
    {
        std::string model; // in the write buffer
        std::string rmodel; ReadBuffer* rb = new ReadBuffer; std::list<std::pair<ReadBuffer*, std::string>> others;
        {
            WriteBuffer wb;
            if (rnd(2)) wb.set_base_block_factor(rnd(10));
            int steps = 1 + rnd(40); int big = rnd(4) == 0;
            std::string tr;
            int sinceNext = 0; 
            for (int i = 0; i < steps; i++) {
                int op = rnd(9);
                if (op <= 1) { std::string s = rbytes(rnd(big ? 70000 : 300)); CHK(wb.Append(s), "append-fails", ""); model += s; sinceNext = 0; }
                else if (op == 2) { std::string s = rbytes(1 + rnd(300)); CHK(wb.Append(s.data(), s.size()), "append-fails", ""); model += s; sinceNext = 0; }
                else if (op == 3 || op == 4) {
                    void* d; int n; if (!wb.Next(&d, &n)) { fail("next-fails", ""); break; }
                    CHK(n > 0, "write-empty-chunk", S(n));
                    std::string s = rbytes(n); memcpy(d, s.data(), n); model += s; sinceNext = n;
                    if (rnd(2)) { int k = rnd(3) ? rnd(n + 1) : n; wb.BackUp(k); model.resize(model.size() - k); sinceNext = 0; }
                }
                else if (op == 5) {
                    int n = 1 + rnd(big ? 40000 : 200); int64_t h = wb.Reserve(n);
                    CHK(h == (int64_t)model.size(), "reserve-position", "Reserve gives " + S(h) + " at size " + S(model.size()));
                    std::string s = rbytes(n); model.resize(model.size() + n);
                    // filled in pieces, any order
                    int cut = rnd(n); 
                    if (cut < n) wb.SetData(h + cut, s.data() + cut, n - cut);
                    if (cut > 0) wb.SetData(h, s.data(), cut);
                    model.replace(h, n, s); sinceNext = 0;
                }
                else if (op == 6 && model.size()) {
                    int64_t p = rnd(model.size()); int n = 1 + rnd(std::min<size_t>(model.size() - p, big ? 70000 : 400));
                    if (n > (int64_t)model.size() - p) n = model.size() - p;
                    std::string s = rbytes(n); wb.SetData(p, s.data(), n); model.replace(p, n, s);
                }
                else if (op == 7 && rnd(3) == 0) {
                    wb.SwapOut(rb); rmodel += model; model.clear();
                    CHK(wb.ByteCount() == 0 && wb.BlockCount() == 0 && wb.TotalCapacity() == 0 && wb.TotalBlockSize() == 0, "swapout-not-empty", "");
                    CHK(rb->TotalCount() == (int64_t)rmodel.size(), "swapout-count", S(rb->TotalCount()) + " want " + S(rmodel.size()));
                    CHK(rb->ToString() == rmodel, "tostring", "ToString differs after SwapOut");
                }
                else if (op == 8 && rnd(4) == 0) {
                    // share pieces with another reader; the original may go first
                    ReadBuffer* o = new ReadBuffer; o->Append(rb); o->Append(rb);
                    others.push_back(std::make_pair(o, rmodel + rmodel));
                    CHK(o->TotalBlockSize() == 2 * rb->TotalBlockSize() && o->BlockCount() == 2 * rb->BlockCount(), "share-totals", "");
                }
                CHK(wb.ByteCount() == (int64_t)model.size(), "write-count", "ByteCount " + S(wb.ByteCount()) + " want " + S(model.size()));
                CHK(wb.TotalCapacity() >= wb.ByteCount() && wb.TotalBlockSize() == wb.TotalCapacity() + 8 * wb.BlockCount(), "write-totals", "");
                if (!g_failkeys.empty()) return;
            }
            if (rnd(4)) { wb.SwapOut(rb); rmodel += model; model.clear(); }
            // writer may be destroyed still holding data
        }
        CHK(rb->TotalCount() == (int64_t)rmodel.size(), "total", "TotalCount");
        if (rnd(3) == 0) {
            // manual pieces: sub-ranges of one block with offsets, as the receiver builds them
            char* b = (char*)TranBufPool::malloc(rnd(10)); int cap = TranBufPool::capacity(b);
            std::string s = rbytes(cap); memcpy(b, s.data(), cap);
            int o = 0; while (o < cap) { int n = 1 + rnd(cap - o); if (rnd(2)) { rb->Append(BufHandle(b, n, o)); rmodel += s.substr(o, n); } o += n; }
            TranBufPool::free(b);
        }
        bool first = rnd(2);
        if (first) { CHK(rb->ToString() == rmodel, "tostring", "ToString"); CHK(drain(*rb, rnd(2), rmodel) == rmodel, "read-all", "drained bytes differ"); CHK(rb->ToString() == rmodel, "tostring", "ToString after reading"); delete rb; }
        for (auto& o : others) { CHK(o.first->ToString() == o.second, "shared-bytes", "shared reader differs"); CHK(drain(*o.first, rnd(2), o.second) == o.second, "read-all", "shared reader drained differs"); delete o.first; }
        if (!first) { CHK(drain(*rb, rnd(2), rmodel) == rmodel, "read-all", "drained bytes differ"); delete rb; }
    }
    (void)base;
}
static size_t pool_bytes() { return __sanitizer_get_current_allocated_bytes(); }
static void pool() {
    for (int f = 0; f <= 9; f++) {
        Case("pool factor " + S(f));
        char* p = (char*)TranBufPool::malloc(f);
        CHK(TranBufPool::block_size(p) == (64 << f) && TranBufPool::capacity(p) == (64 << f) - 8, "pool-size", S(TranBufPool::block_size(p)));
        memset(p, 0xab, TranBufPool::capacity(p));
        CHK(TranBufPool::block_size(p) == (64 << f), "pool-size", "after fill");
        size_t before = pool_bytes();
        for (int k = 0; k < 5; k++) TranBufPool::add_ref(p);
        for (int k = 0; k < 5; k++) { TranBufPool::free(p); CHK(pool_bytes() == before, "pool-early-free", "block released while referenced"); if (pool_bytes() != before) return; p[0] = 1; p[TranBufPool::capacity(p) - 1] = 2; }
        TranBufPool::free(p);
        CHK(pool_bytes() == before - (64 << f), "pool-leak", "last free did not release the block");
    }
}
static void leak() {
    // bytes held after all buffers are gone must be what they were before
    for (int round = 0; round < 2; round++) {
        size_t b0 = pool_bytes();
        { std::string big(100000, 'x'); WriteBuffer wb; wb.Append(big); { ReadBuffer r; wb.SwapOut(&r); ReadBuffer q; q.Append(&r); ReadBuffer z; z.Append(&q); CHK(q.ToString() == big && z.ToString() == big, "shared-bytes", "");
            wb.Append(big); void* d; int n; wb.Next(&d, &n); wb.BackUp(n); wb.SwapOut(&q); CHK(q.ToString() == big + big, "swap-after-full-backup", ""); } wb.Append(big); }
        size_t b1 = pool_bytes();
        if (round) CHK(b1 == b0, "leak", "allocated bytes " + S(b0) + " -> " + S(b1));
    }
}
int main() {
    init(); const char* s = getenv("VERIF_SEED"); uint64_t base = s ? atoll(s) : 1;
    pool(); Case("leak"); leak();
    int N = thorough() ? 60000 : 4000;
    for (int i = 0; i < N && g_failkeys.empty(); i++) one(base * 1000003 + i);
    // exact boundary writes around every block size
    rng.seed(base);
    for (int f = 0; f <= 9; f++) for (int delta = -2; delta <= 2; delta++) {
        Case("boundary factor " + S(f) + " delta " + S(delta));
        WriteBuffer wb; wb.set_base_block_factor(f); int cap = (64 << f) - 8; std::string a = rbytes(cap + delta), b = rbytes(3), c = rbytes(cap);
        wb.Append(a); int64_t h = wb.Reserve(3); wb.Append(c); wb.SetData(h, b.data(), 3); wb.SetData(0, b.data(), 3);
        std::string m = a + b + c; m.replace(0, 3, b); ReadBuffer r; wb.SwapOut(&r); CHK(r.ToString() == m, "boundary", "bytes differ");
    }
    return done();
}
