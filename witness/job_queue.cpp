// J04: what is submitted is what a worker calls, and a future's job delivers to that future.
#include <sm/boost/JobQueue.hpp>

void submit(sm::JobQueue& q, boost::function<void()> const& fn) { q.scheduleWork(fn); }
void future_int(sm::JobQueue& q, boost::function<int()> const& fn, boost::unique_future<int>& out) { q.scheduleFuture<int>(fn, out); }
void future_void(sm::JobQueue& q, boost::function<void()> const& fn, boost::unique_future<void>& out) { q.scheduleFuture<void>(fn, out); }
