// Redirects the standard concurrency names, for the code included after this point.
#ifndef VS_REAL_NAMES // only to tell whether a compile error comes from the redirection
#define atomic vs_atomic
#define atomic_bool vs_atomic_bool
#define atomic_int vs_atomic_int
#define atomic_size_t vs_atomic_size_t
#define atomic_flag vs_atomic_flag
#define mutex vs_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_condition_variable_any
#define thread vs_thread
#define jthread vs_jthread
#define this_thread vs_this_thread
#define steady_clock vs_steady_clock
#define system_clock vs_system_clock
#define high_resolution_clock vs_high_resolution_clock
#define shared_mutex vs_shared_mutex
#define recursive_mutex vs_recursive_mutex
#define timed_mutex vs_timed_mutex
#define counting_semaphore vs_counting_semaphore
#define binary_semaphore vs_binary_semaphore
#define latch vs_latch
#define once_flag vs_once_flag
#define call_once vs_call_once
#define atomic_thread_fence vs_atomic_thread_fence
#endif
