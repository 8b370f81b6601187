#ifndef SHIM_SPP_H
#define SHIM_SPP_H
#include <unordered_map>
#include <unordered_set>
#include <functional>
namespace spp {
template <class T> struct spp_hash : public std::hash<T> {};
template <class T> inline void hash_combine(std::size_t &seed, T const &v) {
	seed ^= std::hash<T>()(v) + 0x9e3779b97f4a7c15ULL + (seed << 6) + (seed >> 2);
}
template <class K, class D, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_map : public std::unordered_map<K, D, H, E> {
	public:
	typedef std::unordered_map<K, D, H, E> base;
	using base::base;
	sparse_hash_map() : base() {}
	void resize(size_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
template <class K, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_set : public std::unordered_set<K, H, E> {
	public:
	typedef std::unordered_set<K, H, E> base;
	using base::base;
	sparse_hash_set() : base() {}
	void resize(size_t n) { this->reserve(n); }
};
}
#endif
