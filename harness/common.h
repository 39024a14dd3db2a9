// helpers shared by the scenarios
#pragma once
#include "sim.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace h {
  using namespace std::chrono_literals;
  // counters of the oracle: relaxed atomics create no happens-before edges that could hide a race
  struct Cnt {
    std::atomic<int> v{0};
    int operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); }
    int get() const { return v.load(std::memory_order_relaxed); }
    void set(int x) { v.store(x, std::memory_order_relaxed); }
  };
  // Start a workload thread; creation faults are meant for the code under test only.
  template<class F>
  std::thread spawn(F &&f) {
    bool const save = sim::opt().thread_create_faults;
    sim::opt().thread_create_faults = false;
    std::thread t(std::forward<F>(f));
    sim::opt().thread_create_faults = save;
    return t;
  }
  inline void nap() {  // random pause
    switch (sim::choose(5, "nap")) {
      case 1: sim::yield(); break;
      case 2: sim::sleep_ns(1000); break;
      case 3: sim::sleep_ns(1000000); break;
      default: break;
    }
  }
  struct Boom : std::runtime_error {
    int id;
    explicit Boom(int i) : std::runtime_error("boom"), id(i) {}
  };
} // namespace h
