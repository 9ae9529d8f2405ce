// Stand-in for qclient's queue: one or more producers, one consumer walking with an iterator.
#pragma once
#include <condition_variable>
#include <deque>
#include <mutex>
#include <shared_mutex>
namespace qclient {
template <typename T, size_t N> class WaitableQueue {
public:
  class Iterator {
  public:
    Iterator(WaitableQueue *q, int64_t s) : q_(q), seq_(s) {}
    T *getItemBlockOrNull() {
      std::unique_lock<std::mutex> lock(q_->m_);
      q_->cv_.wait(lock, [&] { return !q_->blocking_ || seq_ < q_->base_ + (int64_t) q_->items_.size(); });
      if (seq_ < q_->base_ + (int64_t) q_->items_.size()) return &q_->items_[seq_ - q_->base_];
      return nullptr;
    }
    void next() { seq_++; }
  private:
    WaitableQueue *q_; int64_t seq_;
  };
  template <typename... A> int64_t emplace_back(A &&...a) { std::lock_guard<std::mutex> lock(m_); items_.emplace_back(std::forward<A>(a)...); cv_.notify_all(); return base_ + (int64_t) items_.size() - 1; }
  void pop_front() { std::lock_guard<std::mutex> lock(m_); items_.pop_front(); base_++; }
  Iterator begin() { std::lock_guard<std::mutex> lock(m_); return Iterator(this, base_); }
  void setBlockingMode(bool b) { std::lock_guard<std::mutex> lock(m_); blocking_ = b; cv_.notify_all(); }
  size_t size() { std::lock_guard<std::mutex> lock(m_); return items_.size(); }
private:
  std::mutex m_; std::condition_variable cv_; std::deque<T> items_; int64_t base_ = 0; bool blocking_ = true;
};
}
