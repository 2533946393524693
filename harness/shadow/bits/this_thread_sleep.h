// std::this_thread sleeping, without the division into seconds and nanoseconds (the model's clock counts nanoseconds)
#ifndef _GLIBCXX_THIS_THREAD_SLEEP_H
#define _GLIBCXX_THIS_THREAD_SLEEP_H 1
#include <chrono>
extern "C" int k8v_sleep(long nanoseconds);
namespace std { namespace this_thread {
template <typename Rep_, typename Period_> inline void sleep_for(const chrono::duration<Rep_, Period_> &d) {
	if (d <= d.zero()) return;
	k8v_sleep(chrono::duration_cast<chrono::nanoseconds>(d).count());
}
template <typename Clock_, typename Dur_> inline void sleep_until(const chrono::time_point<Clock_, Dur_> &t) {
	auto now = Clock_::now();
	if (now < t) sleep_for(t - now);
}
} }
#endif
