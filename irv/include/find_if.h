// Reference text of the library algorithm std::find_if (and of any_of, all_of, none_of and find, which libstdc++ builds
// on it): the first element that satisfies the predicate.  It replaces only libstdc++'s own copy of the algorithm, which
// is unrolled four times; the code of the repository is compiled as it stands.
#include <bits/stl_iterator_base_types.h>
namespace std {
template <template <class...> class I, class... A, class P>
inline I<A...> __find_if(I<A...> first, I<A...> last, P pred, random_access_iterator_tag) {
  while (first != last && !pred(first)) ++first;
  return first;
}
template <class T, class P>
inline T* __find_if(T* first, T* last, P pred, random_access_iterator_tag) {
  while (first != last && !pred(first)) ++first;
  return first;
}
}  // namespace std
