/* Bit-blasts Z3 terms (QF_BV) into one incremental MiniSat instance. Path
 * conditions and queries become assumption literals, so learned clauses are
 * shared by all paths. */
#include <minisat/core/Solver.h>
#undef l_True
#undef l_False
#undef l_Undef
struct Blaster {
	typedef Minisat::Lit L;
	typedef std::vector<L> BV;
	Minisat::Solver *sat = nullptr;
	L T, F;
	std::unordered_map<Z3_ast, BV> bv;
	std::unordered_map<Z3_ast, L> bo;
	std::vector<E> keep;
	std::unordered_map<u64, L> gates; /* structural hashing */
	std::vector<std::pair<E, BV>> inputs; /* uninterpreted constants */
	struct Unsupported {};
	bool bad = false;
	u64 resets = 0;

	void reset() {
		delete sat;
		sat = new Minisat::Solver();
		bv.clear(); bo.clear(); keep.clear(); gates.clear(); inputs.clear();
		fan.clear(); stamp.clear(); cone.clear();
		T = fresh();
		F = ~T;
		sat->addClause(T);
		resets++;
	}
	/* Gate outputs are functions of their inputs, so only the variables a
	 * query depends on have to be decided: any assignment of those extends
	 * to the rest. */
	struct Fan { int v[3]; };
	std::vector<Fan> fan;
	std::vector<u64> stamp;
	std::vector<int> cone, stackv;
	u64 tick = 0;
	L fresh(int a = -1, int b = -1, int c = -1) {
		int v = sat->newVar(Minisat::lbool((uint8_t)2), false);
		if ((int)fan.size() <= v) { fan.resize(v + 1); stamp.resize(v + 1, 0); }
		fan[v] = Fan{ { a, b, c } };
		stamp[v] = 0;
		return Minisat::mkLit(v);
	}
	void decide(const Minisat::vec<L> &as) {
		tick++;
		std::vector<int> next;
		for (int i = 0; i < as.size(); i++) stackv.push_back(Minisat::var(as[i]));
		while (!stackv.empty()) {
			int v = stackv.back(); stackv.pop_back();
			if (v < 0 || stamp[v] == tick) continue;
			stamp[v] = tick;
			next.push_back(v);
			for (int f : fan[v].v) if (f >= 0) stackv.push_back(f);
		}
		for (int v : cone) if (stamp[v] != tick) sat->setDecisionVar(v, false);
		for (int v : next) sat->setDecisionVar(v, true);
		cone.swap(next);
	}
	static u64 key(L a, L b, int op) {
		return ((u64)Minisat::toInt(a) << 33) ^ ((u64)Minisat::toInt(b) << 2) ^ (u64)op; }
	L And(L a, L b) {
		if (a == F || b == F || a == ~b) return F;
		if (a == T || a == b) return b;
		if (b == T) return a;
		if (b < a) std::swap(a, b);
		u64 k = key(a, b, 1);
		auto f = gates.find(k);
		if (f != gates.end()) return f->second;
		L r = fresh(Minisat::var(a), Minisat::var(b));
		sat->addClause(~a, ~b, r); sat->addClause(a, ~r); sat->addClause(b, ~r);
		return gates[k] = r;
	}
	L Or(L a, L b) { return ~And(~a, ~b); }
	L Xor(L a, L b) {
		if (a == F) return b;
		if (b == F) return a;
		if (a == T) return ~b;
		if (b == T) return ~a;
		if (a == b) return F;
		if (a == ~b) return T;
		bool inv = false;
		if (Minisat::sign(a)) { a = ~a; inv = !inv; }
		if (Minisat::sign(b)) { b = ~b; inv = !inv; }
		if (b < a) std::swap(a, b);
		u64 k = key(a, b, 2);
		auto f = gates.find(k);
		L r;
		if (f != gates.end()) r = f->second;
		else {
			r = fresh(Minisat::var(a), Minisat::var(b));
			sat->addClause(~a, ~b, ~r); sat->addClause(a, b, ~r);
			sat->addClause(~a, b, r); sat->addClause(a, ~b, r);
			gates[k] = r;
		}
		return inv ? ~r : r;
	}
	L Ite(L c, L a, L b) {
		if (c == T) return a;
		if (c == F) return b;
		if (a == b) return a;
		if (a == T) return Or(c, b);
		if (a == F) return And(~c, b);
		if (b == T) return Or(~c, a);
		if (b == F) return And(c, a);
		if (a == ~b) return Xor(~c, a);
		L r = fresh(Minisat::var(c), Minisat::var(a), Minisat::var(b));
		sat->addClause(~c, ~a, r); sat->addClause(~c, a, ~r);
		sat->addClause(c, ~b, r); sat->addClause(c, b, ~r);
		return r;
	}
	L Maj(L a, L b, L c) {
		if (a == F) return And(b, c);
		if (a == T) return Or(b, c);
		if (b == F) return And(a, c);
		if (b == T) return Or(a, c);
		if (c == F) return And(a, b);
		if (c == T) return Or(a, b);
		return Or(And(a, b), And(c, Or(a, b)));
	}
	BV add(const BV &a, const BV &b, L c) {
		BV r(a.size());
		for (size_t i = 0; i < a.size(); i++) {
			L x = Xor(a[i], b[i]);
			r[i] = Xor(x, c);
			c = Maj(a[i], b[i], c);
		}
		return r;
	}
	BV inv(const BV &a) { BV r(a); for (auto &l : r) l = ~l; return r; }
	BV neg(const BV &a) { BV z(a.size(), F); return add(z, inv(a), T); }
	BV constant(unsigned w, u64 c) {
		BV r(w);
		for (unsigned i = 0; i < w; i++) r[i] = i < 64 && ((c >> i) & 1) ? T : F;
		return r;
	}
	L ult(const BV &a, const BV &b) { /* a < b */
		L r = F;
		for (size_t i = 0; i < a.size(); i++) {
			L x = Xor(a[i], b[i]);
			r = Ite(x, b[i], r);
		}
		return r;
	}
	L slt(BV a, BV b) { std::swap(a.back(), b.back()); return ult(a, b); }
	L eq(const BV &a, const BV &b) {
		L r = T;
		for (size_t i = 0; i < a.size(); i++) {
			r = And(r, ~Xor(a[i], b[i]));
			if (r == F) return F;
		}
		return r;
	}
	BV ite(L c, const BV &a, const BV &b) {
		BV r(a.size());
		for (size_t i = 0; i < a.size(); i++) r[i] = Ite(c, a[i], b[i]);
		return r;
	}
	BV mul(BV a, BV b) {
		size_t n = a.size();
		auto consts = [&](const BV &v) { size_t k = 0; for (auto l : v) if (l == T || l == F) k++; return k; };
		if (consts(a) > consts(b)) std::swap(a, b);
		/* b == -1: negation */
		bool all = true;
		for (auto l : b) if (l != T) all = false;
		if (all) return neg(a);
		/* long run of ones at the top: -(a * (-b)) when that has fewer ones */
		if (consts(b) == n && n <= 64) {
			u64 c = 0;
			for (size_t i = 0; i < n; i++) if (b[i] == T) c |= 1ull << i;
			u64 m = n >= 64 ? ~0ull : ((1ull << n) - 1);
			u64 d = (0 - c) & m;
			if (__builtin_popcountll(d) + 1 < __builtin_popcountll(c)) return neg(mul(a, constant((unsigned)n, d)));
		}
		BV r(n, F);
		for (size_t i = 0; i < n; i++) {
			if (b[i] == F) continue;
			BV p(n, F);
			for (size_t j = i; j < n; j++) p[j] = And(a[j - i], b[i]);
			r = add(r, p, F);
		}
		return r;
	}
	/* Long division; the running remainder is below the divisor, so only as
	 * many bits as the divisor can have are kept. */
	void divrem(const BV &a, const BV &b, BV &q, BV &r) {
		size_t n = a.size(), m = n;
		while (m > 1 && b[m - 1] == F) m--;
		q.assign(n, F);
		BV rem(m + 1, F), d(b.begin(), b.begin() + m);
		d.push_back(F);
		for (size_t i = n; i-- > 0;) {
			BV sh(m + 1);
			for (size_t k = m; k > 0; k--) sh[k] = rem[k - 1];
			sh[0] = a[i];
			L ge = ~ult(sh, d);
			q[i] = ge;
			BV sub = add(sh, inv(d), T);
			rem = ite(ge, sub, sh);
		}
		r.assign(n, F);
		for (size_t k = 0; k < m; k++) r[k] = rem[k];
		if (m < n) r = ite(eq(b, BV(n, F)), a, r);
	}
	BV shift(const BV &a, const BV &s, int kind) { /* 0 shl 1 lshr 2 ashr */
		size_t n = a.size();
		L fill = kind == 2 ? a.back() : F;
		BV r(a);
		L big = F;
		for (size_t k = 0; k < s.size(); k++) {
			if (k < 8 && (1ull << k) < n) {
				size_t d = (size_t)1 << k;
				BV t(n);
				for (size_t i = 0; i < n; i++) {
					if (kind == 0) t[i] = i >= d ? r[i - d] : F;
					else t[i] = i + d < n ? r[i + d] : fill;
				}
				r = ite(s[k], t, r);
			}
			else big = Or(big, s[k]);
		}
		/* n not a power of two: shifts between n and 2^k give fill anyway */
		return ite(big, BV(n, fill), r);
	}
	BV absv(const BV &a) { return ite(a.back(), neg(a), a); }

	const BV &B(Z3_ast t) {
		auto f = bv.find(t);
		if (f != bv.end()) return f->second;
		unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, t));
		BV r;
		if (Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST) {
			uint64_t u;
			if (w <= 64 && Z3_get_numeral_uint64(Z, t, &u)) r = constant(w, u);
			else {
				const char *s = Z3_get_numeral_binary_string(Z, t);
				size_t n = strlen(s);
				r.assign(w, F);
				for (size_t i = 0; i < n && i < w; i++) r[i] = s[n - 1 - i] == '1' ? T : F;
			}
		}
		else {
			if (Z3_get_ast_kind(Z, t) != Z3_APP_AST) throw Unsupported();
			Z3_app a = Z3_to_app(Z, t);
			unsigned n = Z3_get_app_num_args(Z, a);
			Z3_func_decl d = Z3_get_app_decl(Z, a);
			auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, a, i); };
			auto A = [&](unsigned i) -> BV { return B(arg(i)); };
			switch (Z3_get_decl_kind(Z, d)) {
			case Z3_OP_UNINTERPRETED:
				if (n) throw Unsupported();
				for (unsigned i = 0; i < w; i++) r.push_back(fresh());
				inputs.push_back({ E(t), r });
				break;
			case Z3_OP_BADD: r = A(0); for (unsigned i = 1; i < n; i++) r = add(r, A(i), F); break;
			case Z3_OP_BSUB: r = A(0); for (unsigned i = 1; i < n; i++) r = add(r, inv(A(i)), T); break;
			case Z3_OP_BNEG: r = neg(A(0)); break;
			case Z3_OP_BMUL: r = A(0); for (unsigned i = 1; i < n; i++) r = mul(r, A(i)); break;
			case Z3_OP_BNOT: r = inv(A(0)); break;
			case Z3_OP_BAND: case Z3_OP_BOR: case Z3_OP_BXOR: case Z3_OP_BNAND: case Z3_OP_BNOR: case Z3_OP_BXNOR: {
				Z3_decl_kind k = Z3_get_decl_kind(Z, d);
				r = A(0);
				for (unsigned i = 1; i < n; i++) {
					BV b = A(i);
					for (unsigned j = 0; j < w; j++)
						r[j] = (k == Z3_OP_BAND || k == Z3_OP_BNAND) ? And(r[j], b[j]) :
							(k == Z3_OP_BOR || k == Z3_OP_BNOR) ? Or(r[j], b[j]) : Xor(r[j], b[j]);
				}
				if (k == Z3_OP_BNAND || k == Z3_OP_BNOR || k == Z3_OP_BXNOR) r = inv(r);
				break;
			}
			case Z3_OP_CONCAT:
				for (unsigned i = n; i-- > 0;) { BV b = A(i); r.insert(r.end(), b.begin(), b.end()); }
				break;
			case Z3_OP_EXTRACT: {
				unsigned hi = Z3_get_decl_int_parameter(Z, d, 0), lo = Z3_get_decl_int_parameter(Z, d, 1);
				BV b = A(0);
				r.assign(b.begin() + lo, b.begin() + hi + 1);
				break;
			}
			case Z3_OP_ZERO_EXT: r = A(0); r.resize(w, F); break;
			case Z3_OP_SIGN_EXT: r = A(0); r.resize(w, L(r.back())); break;
			case Z3_OP_REPEAT: { BV b = A(0); while (r.size() < w) r.insert(r.end(), b.begin(), b.end()); break; }
			case Z3_OP_ITE: { L c = O(arg(0)); BV x = A(1), y = A(2); r = ite(c, x, y); break; }
			case Z3_OP_BSHL: r = shift(A(0), A(1), 0); break;
			case Z3_OP_BLSHR: r = shift(A(0), A(1), 1); break;
			case Z3_OP_BASHR: r = shift(A(0), A(1), 2); break;
			case Z3_OP_BUDIV: case Z3_OP_BUREM: case Z3_OP_BUDIV_I: case Z3_OP_BUREM_I: {
				Z3_decl_kind k = Z3_get_decl_kind(Z, d);
				BV q, m;
				divrem(A(0), A(1), q, m);
				r = k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I ? q : m;
				break;
			}
			case Z3_OP_BSDIV: case Z3_OP_BSREM: case Z3_OP_BSDIV_I: case Z3_OP_BSREM_I: {
				Z3_decl_kind k = Z3_get_decl_kind(Z, d);
				BV x = A(0), y = A(1), q, m;
				L z = eq(y, BV(w, F));
				divrem(absv(x), absv(y), q, m);
				if (k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I) {
					r = ite(Xor(x.back(), y.back()), neg(q), q);
					/* SMT-LIB: x / 0 is 1 for negative x, -1 otherwise */
					r = ite(z, ite(x.back(), constant(w, 1), BV(w, T)), r);
				}
				else r = ite(z, x, ite(x.back(), neg(m), m));
				break;
			}
			case Z3_OP_ROTATE_LEFT: case Z3_OP_ROTATE_RIGHT: {
				unsigned k = Z3_get_decl_int_parameter(Z, d, 0) % w;
				if (Z3_get_decl_kind(Z, d) == Z3_OP_ROTATE_RIGHT) k = (w - k) % w;
				BV b = A(0);
				r.resize(w);
				for (unsigned i = 0; i < w; i++) r[(i + k) % w] = b[i];
				break;
			}
			case Z3_OP_BCOMP: r = BV(1, eq(A(0), A(1))); break;
			default: throw Unsupported();
			}
		}
		if (r.size() != w) throw Unsupported();
		keep.push_back(E(t));
		return bv[t] = r;
	}
	L O(Z3_ast t) {
		auto f = bo.find(t);
		if (f != bo.end()) return f->second;
		L r = F;
		Z3_lbool lb = Z3_get_bool_value(Z, t);
		if (lb == Z3_L_TRUE) r = T;
		else if (lb == Z3_L_FALSE) r = F;
		else {
			if (Z3_get_ast_kind(Z, t) != Z3_APP_AST) throw Unsupported();
			Z3_app a = Z3_to_app(Z, t);
			unsigned n = Z3_get_app_num_args(Z, a);
			auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, a, i); };
			auto A = [&](unsigned i) -> BV { return B(arg(i)); };
			bool isb = n > 0 && Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(0))) == Z3_BOOL_SORT;
			switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a))) {
			case Z3_OP_NOT: r = ~O(arg(0)); break;
			case Z3_OP_AND: r = T; for (unsigned i = 0; i < n; i++) r = And(r, O(arg(i))); break;
			case Z3_OP_OR: r = F; for (unsigned i = 0; i < n; i++) r = Or(r, O(arg(i))); break;
			case Z3_OP_XOR: r = O(arg(0)); for (unsigned i = 1; i < n; i++) r = Xor(r, O(arg(i))); break;
			case Z3_OP_IFF: r = ~Xor(O(arg(0)), O(arg(1))); break;
			case Z3_OP_IMPLIES: r = Or(~O(arg(0)), O(arg(1))); break;
			case Z3_OP_ITE: { L c = O(arg(0)), x = O(arg(1)), y = O(arg(2)); r = Ite(c, x, y); break; }
			case Z3_OP_EQ: r = isb ? ~Xor(O(arg(0)), O(arg(1))) : eq(A(0), A(1)); break;
			case Z3_OP_DISTINCT:
				r = T;
				for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++)
					r = And(r, isb ? Xor(O(arg(i)), O(arg(j))) : ~eq(A(i), A(j)));
				break;
			case Z3_OP_ULT: r = ult(A(0), A(1)); break;
			case Z3_OP_ULEQ: r = ~ult(A(1), A(0)); break;
			case Z3_OP_UGT: r = ult(A(1), A(0)); break;
			case Z3_OP_UGEQ: r = ~ult(A(0), A(1)); break;
			case Z3_OP_SLT: r = slt(A(0), A(1)); break;
			case Z3_OP_SLEQ: r = ~slt(A(1), A(0)); break;
			case Z3_OP_SGT: r = slt(A(1), A(0)); break;
			case Z3_OP_SGEQ: r = ~slt(A(0), A(1)); break;
			default: throw Unsupported();
			}
		}
		keep.push_back(E(t));
		return bo[t] = r;
	}
	/* 1 sat, 0 unsat, -1 unknown / not expressible */
	int check(const std::vector<E> &pc, const E *extra, double seconds) {
		if (!sat || sat->nVars() > 400000) reset();
		Minisat::vec<L> as;
		try {
			for (auto &c : pc) {
				L l = O(c.a);
				if (l == F) return 0;
				if (l != T) as.push(l);
			}
			if (extra) { L l = O(extra->a); if (l == F) return 0; if (l != T) as.push(l); }
		}
		catch (Unsupported &) { reset(); return -1; }
		decide(as);
		double t0 = now();
		for (;;) {
			sat->setConfBudget(20000);
			Minisat::lbool r = sat->solveLimited(as);
			if (r == Minisat::lbool((uint8_t)0)) return 1;
			if (r == Minisat::lbool((uint8_t)1)) return 0;
			if (now() - t0 > seconds || stoppingFlag()) return -1;
		}
	}
	static bool stoppingFlag();
	u64 value(const BV &v) {
		u64 r = 0;
		for (size_t i = 0; i < v.size() && i < 64; i++)
			if (sat->modelValue(v[i]) == Minisat::lbool((uint8_t)0)) r |= 1ull << i;
		return r;
	}
	Z3_model model() {
		Z3_model m = Z3_mk_model(Z);
		Z3_model_inc_ref(Z, m);
		for (auto &i : inputs) {
			unsigned w = (unsigned)i.second.size();
			if (w > 64) continue;
			Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, i.first.a));
			E n = num(w, value(i.second));
			Z3_add_const_interp(Z, m, d, n.a);
		}
		return m;
	}
};
