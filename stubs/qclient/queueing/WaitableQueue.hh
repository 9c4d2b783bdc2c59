#pragma once
#include <deque>
#include <mutex>
#include <condition_variable>
namespace qclient {
template<typename T, size_t BlockSize>
class WaitableQueue {
public:
  class Iterator {
  public:
    T& item();
    const T& item() const;
    T* getItemBlockOrNull();
    T& getItemBlock();
    bool itemHasArrived() const;
    void next();
    int64_t seq() const;
  };
  WaitableQueue();
  ~WaitableQueue();
  template<typename... Args> int64_t emplace_back(Args&&... args);
  size_t size() const;
  T& front();
  void pop_front();
  Iterator begin();
  void setBlockingMode(bool val);
  void reset();
};
}
