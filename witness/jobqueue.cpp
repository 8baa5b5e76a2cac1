// Instantiates the job queue's templates.
#include <sm/boost/JobQueue.hpp>

template void sm::JobQueue::scheduleFuture<int>(boost::function<int(void)> const&, boost::unique_future<int>&);
template void sm::JobQueue::scheduleFuture<void>(boost::function<void(void)> const&, boost::unique_future<void>&);
void smw_jobqueue(sm::JobQueue& q, boost::function<int()> f) {
  boost::unique_future<int> r;
  q.scheduleFuture<int>(f, r);
}
