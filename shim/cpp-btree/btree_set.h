#ifndef SHIM_BTS_H
#define SHIM_BTS_H
#include <set>
namespace btree { template <class K, class C = std::less<K> > class btree_set : public std::set<K, C> {}; }
#endif
