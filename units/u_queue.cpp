// Unit: the queue of aged messages.
#include <cstddef>
#include <queue>
#include "ekf_localizer/aged_message_queue.hpp"
using Q = AgedMessageQueue<long>;
extern "C" {
void irvc_push(Q & q, const long & m) {q.push(m);}
long irvc_pop(Q & q) {return q.pop();}
std::size_t irvc_size(const Q & q) {return q.size();}
void irvc_clear(Q & q) {q.clear();}
std::size_t irvc_new(const int max_age, Q * q) {new (q) Q(max_age); return q->size();}
// one round: as many pops as there are messages
std::size_t irvc_round(Q & q, long * out)
{
  const std::size_t n = q.size();
  for (std::size_t i = 0; i < n; i++) {out[i] = q.pop();}
  return n;
}
}
