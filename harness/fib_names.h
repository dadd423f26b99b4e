#pragma once
#define mutex sx_mutex
#define recursive_mutex sx_recursive_mutex
#define condition_variable sx_condition_variable
#define condition_variable_any sx_condition_variable
#define thread sx_thread
#ifdef SX_IN_LIBRARY
#    define atomic sx_atomic_in_library
#    define atomic_bool sx_atomic_in_library<bool>
#else
#    define atomic sx_atomic
#    define atomic_bool sx_atomic<bool>
#endif
#define this_thread sx_this_thread
#define deque sx_deque
