// Threads under the checker's control.  Included before everything else in the language server's sources: std::thread, std::mutex,
// std::condition_variable, std::atomic and std::this_thread there mean the classes below.  Threads are fibers; at every operation
// on a mutex, condition variable or atomic the next thread to run is a symbolic choice.  Sequential consistency; at most
// fib::budget involuntary switches per path.  std::deque, std::vector, std::map checks for data races (happens-before).
#pragma once
#include "fib_core.h"
#include "fib_names.h"
