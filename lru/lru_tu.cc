// The LRU cache of /repo, instantiated with an abstract map: every member of Map is only declared, so the verifier sees a call and uses
// the map's contract (specs/lru.py).  Keys are 64 bit integers, values an opaque class.
#include <cstddef>
#include <functional>
#include <utility>
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
using namespace google::simple_lru_cache;
struct Val;
typedef long Key;
typedef SimpleLRUCacheElem<Key, Val> Elem;
struct Map {
  typedef std::pair<const Key, Elem*> value_type;
  typedef Key key_type;
  typedef Elem* mapped_type;
  typedef size_t size_type;
  typedef value_type& reference;
  typedef const value_type& const_reference;
  struct iterator {
    value_type* p;
    value_type* operator->() const;
    value_type& operator*() const;
    iterator& operator++();
    iterator operator++(int);
    bool operator==(const iterator&) const;
    bool operator!=(const iterator&) const;
  };
  struct const_iterator {
    const value_type* p;
    const_iterator() {}
    const_iterator(const iterator& o) : p(o.p) {}
    const value_type* operator->() const;
    const value_type& operator*() const;
    const_iterator& operator++();
    const_iterator operator++(int);
    bool operator==(const const_iterator&) const;
    bool operator!=(const const_iterator&) const;
  };
  char opaque[48];
  Map();
  ~Map();
  iterator begin();
  iterator end();
  const_iterator begin() const;
  const_iterator end() const;
  iterator find(const Key&);
  const_iterator find(const Key&) const;
  Elem*& operator[](const Key&);
  Elem*& at(const Key&);
  Elem* const& at(const Key&) const;
  void erase(iterator);
  size_t erase(const Key&);
  size_t count(const Key&) const;
  bool contains(const Key&) const;
  size_t size() const;
  bool empty() const;
  void clear();
  void resize(size_t);
  std::pair<iterator, bool> insert(const value_type&);
  std::pair<iterator, bool> emplace(const Key&, Elem*);
  std::pair<iterator, bool> try_emplace(const Key&, Elem*);
  std::pair<iterator, bool> insert_or_assign(const Key&, Elem*);
};
typedef SimpleLRUCacheBase<Key, Val, Map, std::equal_to<Key>> Base;
struct Cache final : public Base {
  explicit Cache(int64_t n) : Base(n) {}
  void removeElement(Val*) override;
};
template class google::simple_lru_cache::SimpleLRUCacheBase<Key, Val, Map, std::equal_to<Key>>;
Base* make(int64_t n) { return new Cache(n); }
void scoped(Base* c, const Key& k, const SimpleLRUCacheOptions& o) { Base::ScopedLookup l(c, k, o); (void)l.found(); }
#ifdef OFFSETS
extern "C" const long lruprobe[] = {offsetof(Elem, key), offsetof(Elem, value), offsetof(Elem, pin), offsetof(Elem, units), offsetof(Elem, next), offsetof(Elem, prev),
  offsetof(Elem, last_use_), sizeof(Elem), offsetof(Base, table_), offsetof(Base, defer_), offsetof(Base, units_), offsetof(Base, max_units_), offsetof(Base, pinned_units_),
  offsetof(Base, head_), offsetof(Base, max_idle_), offsetof(Base, lru_), sizeof(Map), sizeof(Base)};
#endif
