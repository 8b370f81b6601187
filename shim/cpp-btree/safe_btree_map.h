#ifndef SHIM_BTM_H
#define SHIM_BTM_H
#include <map>
namespace btree {
template <class K, class D, class C = std::less<K> >
class safe_btree_map : public std::map<K, D, C> {};
template <class K, class D, class C = std::less<K> >
class btree_map : public std::map<K, D, C> {};
}
#endif
