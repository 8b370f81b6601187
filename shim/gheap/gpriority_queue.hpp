#ifndef SHIM_GPQ_H
#define SHIM_GPQ_H
#include <queue>
template <class H, class T, class C, class Cmp> class gpriority_queue {
	public:
	std::priority_queue<T, C, Cmp> q;
	gpriority_queue() {}
	template <class It> gpriority_queue(It a, It b) : q(a, b) {}
	bool empty() const { return q.empty(); }
	size_t size() const { return q.size(); }
	const T &top() const { return q.top(); }
	void push(const T &v) { q.push(v); }
	void pop() { q.pop(); }
	void swap(gpriority_queue &o) { q.swap(o.q); }
};
#endif
