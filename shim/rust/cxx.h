// Stand-in for the part of cxx's rust/cxx.h that RustFFI uses: the assumed
// interface of the Rust side's types (a vector and a function pointer).
#pragma once

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace rust {
inline namespace cxxbridge1 {

template <typename T>
class Vec {
 public:
  using value_type = T;
  using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;

  Vec() = default;
  Vec(std::initializer_list<T> init) : v(init) {}
  Vec(const Vec&) = default;
  Vec(Vec&&) noexcept = default;
  Vec& operator=(const Vec&) = default;
  Vec& operator=(Vec&&) noexcept = default;

  std::size_t size() const noexcept { return v.size(); }
  bool empty() const noexcept { return v.empty(); }
  const T* data() const noexcept { return v.data(); }
  T* data() noexcept { return v.data(); }
  std::size_t capacity() const noexcept { return v.capacity(); }
  const T& operator[](std::size_t n) const noexcept { return v[n]; }
  const T& at(std::size_t n) const { return v.at(n); }
  const T& front() const noexcept { return v.front(); }
  const T& back() const noexcept { return v.back(); }
  T& operator[](std::size_t n) noexcept { return v[n]; }
  T& at(std::size_t n) { return v.at(n); }
  T& front() noexcept { return v.front(); }
  T& back() noexcept { return v.back(); }
  void reserve(std::size_t n) { v.reserve(n); }
  void push_back(const T& x) { v.push_back(x); }
  void push_back(T&& x) { v.push_back(std::move(x)); }
  template <typename... Args>
  void emplace_back(Args&&... args) {
    v.push_back(T{std::forward<Args>(args)...});
  }
  void truncate(std::size_t n) {
    if (n < v.size()) v.erase(v.begin() + static_cast<std::ptrdiff_t>(n), v.end());
  }
  void clear() { v.clear(); }
  iterator begin() noexcept { return v.begin(); }
  iterator end() noexcept { return v.end(); }
  const_iterator begin() const noexcept { return v.begin(); }
  const_iterator end() const noexcept { return v.end(); }
  const_iterator cbegin() const noexcept { return v.begin(); }
  const_iterator cend() const noexcept { return v.end(); }
  void swap(Vec& o) noexcept { v.swap(o.v); }

 private:
  std::vector<T> v;
};

class String {
 public:
  String() = default;
  String(const std::string& x) : s(x) {}
  String(const char* x) : s(x) {}
  explicit operator std::string() const { return s; }
  const char* data() const noexcept { return s.data(); }
  std::size_t size() const noexcept { return s.size(); }

 private:
  std::string s;
};

template <typename Signature>
class Fn;

template <typename Ret, typename... Args>
class Fn<Ret(Args...)> {
 public:
  Fn() = default;
  Fn(Ret (*f)(Args...)) : fn(f) {}
  Ret operator()(Args... args) const { return fn(std::move(args)...); }
  Fn operator*() const noexcept { return *this; }

 private:
  Ret (*fn)(Args...) = nullptr;
};

}  // namespace cxxbridge1
}  // namespace rust
