// Stand-in for absl::flat_hash_map: an insertion-ordered linear map with the same
// observable behaviour for find / end / erase / operator[] / size / clear.
#pragma once
#include <cstddef>
#include <functional>
#include <utility>
namespace absl {
template <typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>>
class flat_hash_map {
 public:
  using value_type = std::pair<const K, V>;
  struct Node { value_type kv; Node* next; };
  struct iterator {
    Node* n;
    value_type& operator*() const { return n->kv; }
    value_type* operator->() const { return &n->kv; }
    iterator& operator++() { n = n->next; return *this; }
    friend bool operator==(iterator a, iterator b) { return a.n == b.n; }
    friend bool operator!=(iterator a, iterator b) { return a.n != b.n; }
  };
  using const_iterator = iterator;
  flat_hash_map() = default;
  flat_hash_map(const flat_hash_map&) = delete;
  ~flat_hash_map() { clear(); }
  iterator begin() { return {head_}; }
  iterator end() { return {nullptr}; }
  iterator find(const K& k) {
    for (Node* n = head_; n; n = n->next) if (E{}(n->kv.first, k)) return {n};
    return {nullptr};
  }
  bool contains(const K& k) { return find(k) != end(); }
  size_t count(const K& k) { return contains(k); }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  void clear() { while (head_) { Node* n = head_; head_ = n->next; delete n; } size_ = 0; }
  void reserve(size_t) {}
  size_t erase(const K& k) {
    for (Node** p = &head_; *p; p = &(*p)->next)
      if (E{}((*p)->kv.first, k)) { Node* n = *p; *p = n->next; delete n; size_--; return 1; }
    return 0;
  }
  void erase(iterator it) {
    for (Node** p = &head_; *p; p = &(*p)->next)
      if (*p == it.n) { *p = it.n->next; delete it.n; size_--; return; }
  }
  V& operator[](const K& k) {
    iterator it = find(k);
    if (it.n) return it.n->kv.second;
    head_ = new Node{value_type(k, V()), head_}; size_++;
    return head_->kv.second;
  }
  template <typename X> std::pair<iterator, bool> insert_or_assign(const K& k, X&& v) {
    iterator it = find(k); bool had = it.n; (*this)[k] = std::forward<X>(v); return {find(k), !had};
  }
  std::pair<iterator, bool> insert(const value_type& v) {
    iterator it = find(v.first); if (it.n) return {it, false}; (*this)[v.first] = v.second; return {find(v.first), true};
  }
  template <typename... A> std::pair<iterator, bool> emplace(const K& k, A&&... a) {
    iterator it = find(k); if (it.n) return {it, false}; (*this)[k] = V(std::forward<A>(a)...); return {find(k), true};
  }
  template <typename... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) { return emplace(k, std::forward<A>(a)...); }
 private:
  Node* head_ = nullptr;
  size_t size_ = 0;
};
}
