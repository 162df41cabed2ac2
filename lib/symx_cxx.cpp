/* Models of the parts of libstdc++ that are not in its headers. */
#include <stdlib.h>
#include <string.h>
#include <new>
#include <exception>
#include <stdexcept>
#include <map>
namespace std {
	/* key functions, so that the virtual tables and type information of the
	 * exceptions of the standard library are defined here */
	exception::~exception() noexcept {}
	const char* exception::what() const noexcept { return "exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
	/* the text is kept in the place of the string of the library */
	static char *keep(const char *s) {
		char *c = (char*)malloc(strlen(s) + 1);
		strcpy(c, s);
		return c;
	}
	runtime_error::runtime_error(const char *s) { *(char**)(void*)&_M_msg = keep(s); }
	runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o) { *(char**)(void*)&_M_msg = keep(o.what()); }
	runtime_error::~runtime_error() noexcept { free(*(char**)(void*)&_M_msg); }
	const char* runtime_error::what() const noexcept { return *(char**)(void*)&_M_msg; }
	logic_error::logic_error(const char *s) { *(char**)(void*)&_M_msg = keep(s); }
	logic_error::logic_error(const logic_error &o) noexcept : exception(o) { *(char**)(void*)&_M_msg = keep(o.what()); }
	logic_error::~logic_error() noexcept { free(*(char**)(void*)&_M_msg); }
	const char* logic_error::what() const noexcept { return *(char**)(void*)&_M_msg; }
	invalid_argument::invalid_argument(const char *s) : logic_error(s) {}
	invalid_argument::~invalid_argument() noexcept {}
	length_error::length_error(const char *s) : logic_error(s) {}
	length_error::~length_error() noexcept {}
	out_of_range::out_of_range(const char *s) : logic_error(s) {}
	out_of_range::~out_of_range() noexcept {}
	__cow_string::__cow_string() {}
	__cow_string::~__cow_string() {}
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_alloc(); }
	void __throw_logic_error(const char *s) { throw logic_error(s); }
	void __throw_length_error(const char *s) { throw length_error(s); }
	void __throw_out_of_range(const char *s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
	void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }

	/* Search trees, never balanced: same order, other shape */
	static _Rb_tree_node_base *next(_Rb_tree_node_base *x) {
		if (x->_M_right != 0) {
			x = x->_M_right;
			while (x->_M_left != 0) x = x->_M_left;
		}
		else {
			_Rb_tree_node_base *y = x->_M_parent;
			while (x == y->_M_right) { x = y; y = y->_M_parent; }
			if (x->_M_right != y) x = y;
		}
		return x;
	}
	static _Rb_tree_node_base *previous(_Rb_tree_node_base *x) {
		if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
		if (x->_M_left != 0) {
			x = x->_M_left;
			while (x->_M_right != 0) x = x->_M_right;
		}
		else {
			_Rb_tree_node_base *y = x->_M_parent;
			while (x == y->_M_left) { x = y; y = y->_M_parent; }
			x = y;
		}
		return x;
	}
	_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base *x) throw() { return next(x); }
	const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return next(const_cast<_Rb_tree_node_base*>(x)); }
	_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return previous(x); }
	const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return previous(const_cast<_Rb_tree_node_base*>(x)); }
	/* only the header is red */
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
		x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
		if (left) {
			p->_M_left = x;
			if (p == &h) { h._M_parent = x; h._M_right = x; }
			else if (p == h._M_left) h._M_left = x;
		}
		else {
			p->_M_right = x;
			if (p == h._M_right) h._M_right = x;
		}
	}
	static void put(_Rb_tree_node_base *old, _Rb_tree_node_base *x, _Rb_tree_node_base &h) {
		if (h._M_parent == old) h._M_parent = x;
		else if (old->_M_parent->_M_left == old) old->_M_parent->_M_left = x;
		else old->_M_parent->_M_right = x;
		if (x != 0) x->_M_parent = old->_M_parent;
	}
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
		_Rb_tree_node_base *m;
		if (z->_M_left == 0) put(z, z->_M_right, h);
		else if (z->_M_right == 0) put(z, z->_M_left, h);
		else {
			m = z->_M_right;
			while (m->_M_left != 0) m = m->_M_left;
			if (m != z->_M_right) {
				m->_M_parent->_M_left = m->_M_right;
				if (m->_M_right != 0) m->_M_right->_M_parent = m->_M_parent;
				m->_M_right = z->_M_right;
				m->_M_right->_M_parent = m;
			}
			put(z, m, h);
			m->_M_left = z->_M_left;
			m->_M_left->_M_parent = m;
		}
		m = h._M_parent;
		if (m == 0) { h._M_left = &h; h._M_right = &h; }
		else {
			while (m->_M_left != 0) m = m->_M_left;
			h._M_left = m;
			m = h._M_parent;
			while (m->_M_right != 0) m = m->_M_right;
			h._M_right = m;
		}
		return z;
	}
}
namespace std { void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept __attribute__((noreturn));
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { abort(); } }
/* Exceptions: the object follows its destructor, its type and whether it is
 * being thrown again. */
extern "C" {
	struct thrown { void (*destroy)(void*); void *type; long again, pad; };
	void verif_cxx_throw(void *object, void *type) __attribute__((noreturn));
	void *verif_cxx_end_catch(void);
	void *verif_cxx_caught(void);
	void *__cxa_allocate_exception(size_t n) noexcept {
		struct thrown *t = (struct thrown*)malloc(sizeof(struct thrown) + n);
		t->destroy = 0; t->type = 0; t->again = 0;
		return t + 1;
	}
	void __cxa_free_exception(void *p) noexcept { free((struct thrown*)p - 1); }
	void __cxa_throw(void *p, void *type, void (*destroy)(void*)) {
		((struct thrown*)p - 1)->destroy = destroy;
		((struct thrown*)p - 1)->type = type;
		verif_cxx_throw(p, type);
	}
	void __cxa_rethrow(void) {
		void *p = verif_cxx_caught();
		if (p == 0) abort();
		((struct thrown*)p - 1)->again = 1;
		verif_cxx_throw(p, ((struct thrown*)p - 1)->type);
	}
	void __cxa_end_catch(void) {
		void *p = verif_cxx_end_catch();
		if (p == 0) return;
		if (((struct thrown*)p - 1)->again) { ((struct thrown*)p - 1)->again = 0; return; }
		if (((struct thrown*)p - 1)->destroy != 0) ((struct thrown*)p - 1)->destroy(p);
		free((struct thrown*)p - 1);
	}
}
