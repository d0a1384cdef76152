#undef atomic
#undef atomic_bool
#undef atomic_int
#undef atomic_size_t
#undef atomic_flag
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef jthread
#undef this_thread
#undef steady_clock
#undef system_clock
#undef high_resolution_clock
#undef shared_mutex
#undef recursive_mutex
#undef timed_mutex
#undef counting_semaphore
#undef binary_semaphore
#undef latch
#undef once_flag
#undef call_once
#undef atomic_thread_fence
