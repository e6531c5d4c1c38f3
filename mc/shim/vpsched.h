// Controlled scheduler used in place of TBB's work distribution (see /verif/DESIGN.md).
#ifndef VPSCHED_H
#define VPSCHED_H
#include <cstddef>
#include <functional>
#include <vector>

extern "C" {
int vps_mode();                   // 0 fixed plan, 1 explore partitions, 2 race, 3 interleave
int vps_choose(int n, int tag);   // next recorded choice in [0, n)
int vps_worker();                 // virtual worker of the running task (0: the calling thread)
int vps_in_region();              // inside a parallel region?
long vps_thread_key();            // key for thread-local storage: worker, or a real thread's id
void vps_ignore(int delta);       // +1/-1: do not record the accesses of the running code
void vps_lock();
void vps_unlock();
}

namespace vps {
//! A legal way for the library to carry out one parallel loop over n items.
struct Chunk
{
    size_t begin, end;
    int worker;
};
//! Chunks in the order in which they start.
std::vector<Chunk> plan(size_t n);
//! Row and column cuts of a two-dimensional loop.
void plan2(size_t nr, size_t nc, std::vector<Chunk>& rows, std::vector<Chunk>& cols);
//! Run the tasks as the mode says.
void run(const std::vector<std::function<void()>>& tasks, const std::vector<int>& workers);
} // namespace vps
#endif
