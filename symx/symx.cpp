/* symx: a small symbolic executor for LLVM bitcode, deciding with Z3.
 *
 * Every path of the entry function is executed over bit-vector terms. Pointers
 * are 64 bit integers into objects placed 2^40 bytes apart, so that pointers
 * stay concrete on a path and every access is checked against the object it
 * points into. A branch on a symbolic condition asks Z3 which sides are
 * feasible under the path condition and forks; an assertion asks Z3 whether it
 * can be false. When all paths finish without error the assertions hold for
 * every value of the symbolic inputs (loops are only bounded by the program
 * itself or by --max-steps, exceeding which is reported as incomplete).
 *
 * Threads: verif_spawn()/verif_yield() make the schedule an input too.
 */
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <sys/mman.h>
#include <cstdio>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef uint64_t u64;
typedef std::string str;

static Z3_context Z;
static double now() {
	return std::chrono::duration<double>(
		std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double T0;
static double solverTime = 0;
static u64 queries = 0, instrs = 0, pathsDone = 0, pathsKilled = 0, forks = 0,
	assertChecks = 0, memChecks = 0;
static bool incomplete = false;
static std::set<str> incompleteWhy;
static void giveUp(const str &why) { incomplete = true; incompleteWhy.insert(why); }

/* ---------------------------------------------------------------- values */
struct E {
	Z3_ast a;
	E() : a(nullptr) {}
	E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
	E(const E &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
	E(E &&o) noexcept : a(o.a) { o.a = nullptr; }
	E &operator=(const E &o) {
		if (o.a) Z3_inc_ref(Z, o.a);
		if (a) Z3_dec_ref(Z, a);
		a = o.a; return *this; }
	E &operator=(E &&o) noexcept { std::swap(a, o.a); return *this; }
	~E() { if (a) Z3_dec_ref(Z, a); }
	explicit operator bool() const { return a != nullptr; }
};

struct Val {
	unsigned w = 0;          /* width in bits; 0 = none / aggregate */
	u64 c = 0;
	E e;                     /* set when symbolic (bit-vector of width w) */
	std::shared_ptr<std::vector<Val>> agg;
	Val() {}
	Val(unsigned w, u64 c) : w(w), c(c) {}
	Val(unsigned w, E e) : w(w), e(std::move(e)) {}
	bool sym() const { return e.a != nullptr; }
};
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sx(u64 v, unsigned w) {
	if (w >= 64) return (int64_t)v;
	u64 m = 1ull << (w - 1);
	return (int64_t)(((v & mask(w)) ^ m) - m);
}
static Z3_sort sorts[129];
static Z3_sort bvs(unsigned w) {
	if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(Z, w);
		Z3_inc_ref(Z, Z3_sort_to_ast(Z, sorts[w])); }
	return sorts[w];
}
static E num(unsigned w, u64 c) {
	return E(Z3_mk_unsigned_int64(Z, c & mask(w), bvs(w)));
}
static E ex(const Val &v) { return v.sym() ? v.e : num(v.w, v.c); }

/* Turns a term into a Val, constant where it is one. */
static Val fold(unsigned w, E e, bool simp = true) {
	if (simp) e = E(Z3_simplify(Z, e.a));
	uint64_t u;
	if (w <= 64 && Z3_get_ast_kind(Z, e.a) == Z3_NUMERAL_AST &&
		Z3_get_numeral_uint64(Z, e.a, &u)) return Val(w, u);
	return Val(w, e);
}
static E trueE, falseE;
/* Boolean term to i1 */
static Val fromBool(E b) {
	b = E(Z3_simplify(Z, b.a));
	Z3_lbool l = Z3_get_bool_value(Z, b.a);
	if (l == Z3_L_TRUE) return Val(1, 1);
	if (l == Z3_L_FALSE) return Val(1, (u64)0);
	return Val(1, E(Z3_mk_ite(Z, b.a, num(1, 1).a, num(1, 0).a)));
}
static E toBool(const Val &v) {
	if (!v.sym()) return v.c ? trueE : falseE;
	/* undo ite(b,1,0) */
	if (Z3_get_ast_kind(Z, v.e.a) == Z3_APP_AST) {
		Z3_app app = Z3_to_app(Z, v.e.a);
		if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app)) == Z3_OP_ITE) {
			uint64_t a, b;
			Z3_ast x = Z3_get_app_arg(Z, app, 1), y = Z3_get_app_arg(Z, app, 2);
			if (Z3_get_ast_kind(Z, x) == Z3_NUMERAL_AST &&
				Z3_get_ast_kind(Z, y) == Z3_NUMERAL_AST &&
				Z3_get_numeral_uint64(Z, x, &a) && Z3_get_numeral_uint64(Z, y, &b)
				&& v.w == 1) {
				if (a == 1 && b == 0) return E(Z3_get_app_arg(Z, app, 0));
				if (a == 0 && b == 1) return E(Z3_mk_not(Z, Z3_get_app_arg(Z, app, 0)));
			}
		}
	}
	return E(Z3_mk_eq(Z, v.e.a, num(v.w, 1).a));
}
static E notE(const E &b) { return E(Z3_mk_not(Z, b.a)); }

/* ---------------------------------------------------------------- memory */
enum Kind { GLOBAL, STACK, HEAP };
struct Obj {
	u64 base = 0;
	u64 size = 0;
	Kind kind = HEAP;
	bool freed = false, ro = false;
	str name;
	/* state per byte: 0 concrete, 1 symbolic (in sym), 2 undefined */
	std::vector<uint8_t> b, st;
	std::unordered_map<u64, std::pair<E, unsigned>> sym; /* term, byte index */
};
typedef std::shared_ptr<Obj> ObjP;
static const u64 SPACING = 1ull << 40;

struct Frame {
	Function *f = nullptr;
	BasicBlock *bb = nullptr, *prev = nullptr;
	BasicBlock::iterator it;
	std::vector<Val> regs;
	Instruction *site = nullptr;      /* call in the caller */
	size_t stackMark = 0;
	std::vector<Val> varargs;
	std::vector<std::pair<unsigned, unsigned>> visits;
};
struct Thread {
	std::vector<Frame> frames;
	std::vector<ObjP> stack;
	u64 stackNext = 0;
	bool done = false;
	u64 blocked = 0;      /* waits until the int at this address is zero */
	int joins = -1;       /* waits for all others when set */
	u64 excObj = 0; u64 excType = 0;
};
struct In { E e; unsigned w; u64 c; bool conc; };
struct State {
	std::vector<Thread> th;
	int cur = 0;
	int preempts = 0;
	std::vector<ObjP> heap;
	std::vector<ObjP> globals;
	u64 heapNext = 1ull << 62;
	std::vector<E> pc;
	Z3_model model = nullptr;
	std::vector<In> in;
	std::vector<Val> out;
	std::vector<str> wits;
	unsigned nsym = 0;
	std::vector<E> uninit; /* bytes read that nothing had written */
	u64 steps = 0;
	bool dead = false;
	std::vector<u64> caught; /* exception stack */
	State() {}
	State(const State &o) : th(o.th), cur(o.cur), preempts(o.preempts),
		heap(o.heap), globals(o.globals), heapNext(o.heapNext), pc(o.pc),
		model(o.model), in(o.in), out(o.out), wits(o.wits), nsym(o.nsym), uninit(o.uninit),
		steps(o.steps), dead(o.dead), caught(o.caught) {
		if (model) Z3_model_inc_ref(Z, model); }
	~State() { if (model) Z3_model_dec_ref(Z, model); }
	void setModel(Z3_model m) {
		if (m) Z3_model_inc_ref(Z, m);
		if (model) Z3_model_dec_ref(Z, model);
		model = m; }
	Thread &t() { return th[cur]; }
	Frame &f() { return th[cur].frames.back(); }
};
typedef std::unique_ptr<State> StateP;
static std::vector<StateP> work;

/* ---------------------------------------------------------------- solver */
#include "blast.h"
static Blaster blaster;
static u64 satQueries = 0, z3Queries = 0, crossChecked = 0;
static bool useZ3 = false, cross = false;
static Z3_solver S;
static std::vector<E> stack;   /* constraints asserted, one scope each */
static unsigned queryTimeout = 60000;
static Z3_solver newSolver() {
	Z3_solver s = getenv("SYMX_QFBV") ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")) : Z3_mk_simple_solver(Z);
	Z3_solver_inc_ref(Z, s);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), queryTimeout);
	Z3_solver_set_params(Z, s, p);
	Z3_params_dec_ref(Z, p);
	return s;
}
static bool useInc = true;
static bool slowTrace = getenv("SYMX_SLOW") != nullptr;
static Z3_lbool solve(State &s, const E *extra, bool wantModel) {
	double t = now();
	queries++;
	Z3_lbool r;
	if (!useZ3) {
		int b = blaster.check(s.pc, extra, queryTimeout / 1000.0);
		if (b >= 0) {
			satQueries++;
			if (b == 1 && wantModel) {
				Z3_model m = blaster.model();
				s.setModel(m);
				Z3_model_dec_ref(Z, m);
			}
			if (cross) {
				Z3_solver f = newSolver();
				for (auto &c : s.pc) Z3_solver_assert(Z, f, c.a);
				if (extra) Z3_solver_assert(Z, f, extra->a);
				Z3_lbool q = Z3_solver_check(Z, f);
				Z3_solver_dec_ref(Z, f);
				if (q != Z3_L_UNDEF) crossChecked++;
				if ((q == Z3_L_TRUE && b == 0) || (q == Z3_L_FALSE && b == 1)) giveUp("solvers disagree");
			}
			solverTime += now() - t;
			if (slowTrace && now() - t > 0.5) fprintf(stderr, "slow query %.1fs pc %zu %s\n", now() - t, s.pc.size(), extra ? Z3_ast_to_string(Z, extra->a) : "");
			return b ? Z3_L_TRUE : Z3_L_FALSE;
		}
	}
	z3Queries++;
	if (useInc) {
		size_t k = 0;
		while (k < stack.size() && k < s.pc.size() && stack[k].a == s.pc[k].a) k++;
		if (k < stack.size()) {
			Z3_solver_pop(Z, S, (unsigned)(stack.size() - k));
			stack.resize(k);
		}
		while (stack.size() < s.pc.size()) {
			Z3_solver_push(Z, S);
			Z3_solver_assert(Z, S, s.pc[stack.size()].a);
			stack.push_back(s.pc[stack.size()]);
		}
		Z3_solver_push(Z, S);
		if (extra) Z3_solver_assert(Z, S, extra->a);
		r = Z3_solver_check(Z, S);
		if (r == Z3_L_TRUE && wantModel) s.setModel(Z3_solver_get_model(Z, S));
		Z3_solver_pop(Z, S, 1);
	}
	else r = Z3_L_UNDEF;
	if (r == Z3_L_UNDEF) {
		Z3_solver f = newSolver();
		for (auto &c : s.pc) Z3_solver_assert(Z, f, c.a);
		if (extra) Z3_solver_assert(Z, f, extra->a);
		r = Z3_solver_check(Z, f);
		if (r == Z3_L_TRUE && wantModel) s.setModel(Z3_solver_get_model(Z, f));
		Z3_solver_dec_ref(Z, f);
	}
	solverTime += now() - t;
	if (r == Z3_L_UNDEF) giveUp("solver gave no answer within the query limit");
	return r;
}
static Z3_model ensureModel(State &s) {
	if (!s.model) {
		Z3_lbool r = solve(s, nullptr, true);
		if (r != Z3_L_TRUE) return nullptr;
	}
	return s.model;
}
static u64 evalU(State &s, const E &e) {
	Z3_model m = ensureModel(s);
	Z3_ast r = nullptr;
	uint64_t u = 0;
	if (m && Z3_model_eval(Z, m, e.a, true, &r)) {
		E h(r);
		if (!Z3_get_numeral_uint64(Z, r, &u)) {
			E k(Z3_simplify(Z, r));
			Z3_get_numeral_uint64(Z, k.a, &u);
		}
	}
	return u;
}
static bool evalB(State &s, const E &e) {
	Z3_model m = ensureModel(s);
	Z3_ast r = nullptr;
	if (m && Z3_model_eval(Z, m, e.a, true, &r)) {
		E h(r);
		Z3_lbool l = Z3_get_bool_value(Z, r);
		if (l == Z3_L_UNDEF) { E k(Z3_simplify(Z, r)); l = Z3_get_bool_value(Z, k.a); }
		return l == Z3_L_TRUE;
	}
	return false;
}
static void addPC(State &s, const E &c) { s.pc.push_back(c); }

/* Is c possible / its negation possible?  Sets the flags, keeps s.model valid
 * for the side the current model lies on. */
static void both(State &s, const E &c, bool &canT, bool &canF, Z3_model *other) {
	if (other) *other = nullptr;
	canT = canF = false;
	if (!s.pc.empty()) {
		if (s.pc.back().a == c.a) { canT = true; return; }
	}
	if (!ensureModel(s)) { return; }
	bool v = evalB(s, c);
	E q = v ? notE(c) : c;
	State tmp; tmp.pc = s.pc;
	Z3_lbool r = solve(tmp, &q, true);
	bool o = r == Z3_L_TRUE;
	if (o && other) { *other = tmp.model; Z3_model_inc_ref(Z, *other); }
	if (v) { canT = true; canF = o; } else { canF = true; canT = o; }
}

/* ---------------------------------------------------------------- results */
struct Err { str kind, msg, where, fn; std::vector<u64> in, out; str stackTrace; u64 count; bool zero; };
static std::map<str, Err> errors;
static std::vector<str> errorOrder;
struct Wit { str msg; std::vector<u64> in, out; };
static std::map<str, Wit> witnesses;
static std::set<str> witnessNames;
struct Sample { std::vector<u64> in, out; };
static std::vector<Sample> samples;
static unsigned maxSamples = 8, maxErrors = 12;
static std::set<str> funcsRun;
static u64 maxSteps = 2000000;
static unsigned preemptBound = 2;
static bool yieldGlobals = false;
static bool checkUninit = false;
static Module *M;
static const DataLayout *DL;
static bool killAfterErrors = false;

static str where(Instruction *i, str *fn = nullptr) {
	if (!i) return "?";
	str r;
	if (fn) *fn = i->getFunction()->getName().str();
	if (DILocation *d = i->getDebugLoc()) {
		r = (d->getFilename() + ":" + Twine(d->getLine())).str();
		if (fn) if (auto *sp = d->getScope()->getSubprogram()) *fn = sp->getName().str();
	}
	else r = i->getFunction()->getName().str();
	return r;
}
static std::vector<u64> inputs(State &s) {
	std::vector<u64> r;
	for (auto &i : s.in) r.push_back(i.conc ? i.c : evalU(s, i.e));
	return r;
}
static std::vector<u64> outputs(State &s) {
	std::vector<u64> r;
	for (auto &o : s.out) r.push_back(o.sym() ? evalU(s, o.e) : o.c);
	return r;
}
static str trace(State &s) {
	str r;
	auto &fr = s.t().frames;
	for (size_t i = fr.size(); i-- > 0;) {
		Instruction *in = nullptr;
		if (i + 1 < fr.size()) in = fr[i + 1].site;
		else if (fr[i].bb && fr[i].it != fr[i].bb->end()) in = &*fr[i].it;
		r += fr[i].f->getName().str() + " " + where(in) + "\n";
	}
	return r;
}
/* Reports an error on the current path under an extra condition (or none). */
static void report(State &s, const char *kind, const str &msg, const E *cond) {
	Instruction *i = nullptr;
	str w, fn;
	/* innermost frame with a location in something other than the libc model */
	auto &fr = s.t().frames;
	for (size_t k = fr.size(); k-- > 0;) {
		Instruction *in = k + 1 < fr.size() ? fr[k + 1].site :
			(fr[k].bb && fr[k].it != fr[k].bb->end() ? &*fr[k].it : nullptr);
		if (!in) continue;
		str f2, w2 = where(in, &f2);
		if (w2.find("symx_libc") != str::npos && k > 0) continue;
		i = in; w = w2; fn = f2;
		break;
	}
	str key = str(kind) + "|" + msg + "|" + w;
	auto f = errors.find(key);
	bool again = f != errors.end();
	if (again && (f->second.zero || ++f->second.count > 500)) return;
	if (!again && errors.size() >= maxErrors) { killAfterErrors = true; return; }
	State tmp; tmp.pc = s.pc;
	if (cond) tmp.pc.push_back(*cond);
	else tmp.setModel(s.model);
	/* A counterexample where such bytes are zero is the easiest to repeat. */
	bool zero = true;
	if (!s.uninit.empty()) {
		State z; z.pc = tmp.pc;
		for (auto &v : s.uninit) z.pc.push_back(E(Z3_mk_eq(Z, v.a, num(8, 0).a)));
		zero = solve(z, nullptr, true) == Z3_L_TRUE;
		if (zero) tmp.setModel(z.model);
	}
	if (again && !zero) return;
	tmp.in = s.in; tmp.out = s.out;
	Err e;
	e.zero = zero;
	e.kind = kind; e.msg = msg; e.where = w; e.fn = fn; e.count = 1;
	e.in = inputs(tmp); e.out = outputs(tmp);
	e.stackTrace = trace(s);
	errors[key] = e;
	if (!again) errorOrder.push_back(key);
}

/* Checks that ok holds on every continuation; reports and restricts if not.
 * Returns false when the path cannot continue. */
static bool require(State &s, const E &ok, const char *kind, const str &msg) {
	bool t, f; Z3_model o = nullptr;
	both(s, ok, t, f, &o);
	if (o) Z3_model_dec_ref(Z, o);
	if (f) {
		E n = notE(ok);
		report(s, kind, msg, &n);
		if (!t) { s.dead = true; return false; }
		addPC(s, ok);
		if (s.model && !evalB(s, ok)) s.setModel(nullptr);
	}
	return t;
}
static void fail(State &s, const char *kind, const str &msg) {
	report(s, kind, msg, nullptr);
	s.dead = true;
}

/* Decides a symbolic condition on the current path; the other side, if
 * feasible, becomes a new state that re-executes the current instruction. */
static bool decide(State &s, const E &c) {
	E sc(Z3_simplify(Z, c.a));
	Z3_lbool l = Z3_get_bool_value(Z, sc.a);
	if (l == Z3_L_TRUE) return true;
	if (l == Z3_L_FALSE) return false;
	E nc = notE(sc);
	nc = E(Z3_simplify(Z, nc.a));
	for (size_t k = s.pc.size(), n = 0; k-- > 0 && n < 4; n++) {
		if (s.pc[k].a == sc.a) return true;
		if (s.pc[k].a == nc.a) return false;
	}
	bool t, f; Z3_model o = nullptr;
	both(s, sc, t, f, &o);
	if (!t && !f) { s.dead = true; return false; }
	if (t && f) {
		bool mine = evalB(s, sc);
		forks++;
		StateP n(new State(s));
		addPC(*n, mine ? nc : sc);
		n->setModel(o);
		Z3_model_dec_ref(Z, o);
		work.push_back(std::move(n));
		addPC(s, mine ? sc : nc);
		return mine;
	}
	return t;
}
/* One concrete value for v on this path, forking for the others. */
static u64 concretise(State &s, const Val &v) {
	if (!v.sym()) return v.c;
	u64 k = evalU(s, v.e);
	E eq(Z3_mk_eq(Z, v.e.a, num(v.w, k).a));
	if (decide(s, eq)) return k;
	/* decide() keeps the side of the current model, where it is true */
	return k;
}

/* ------------------------------------------------------------ memory ops */
static ObjP *findIn(std::vector<ObjP> &v, u64 a) {
	size_t lo = 0, hi = v.size();
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		if (v[m]->base <= a) lo = m + 1; else hi = m;
	}
	for (int d = 0; d < 2; d++) {
		if (lo >= (size_t)(1 + 0) && d == 0) {
			ObjP &p = v[lo - 1];
			if (a - p->base < SPACING / 2) return &p;
		}
		if (d == 1 && lo < v.size()) {
			ObjP &p = v[lo];
			if (p->base - a < SPACING / 2) return &p;
		}
	}
	return nullptr;
}
/* The object an address belongs to (it may still be out of its bounds). */
static ObjP *find(State &s, u64 a) {
	if (a < SPACING / 2) return nullptr;
	unsigned reg = (unsigned)(a >> 58);
	if (reg < 16) return findIn(s.globals, a);
	if (reg < 32) {
		return findIn(s.heap, a);
	}
	unsigned t = reg - 32;
	if (t < s.th.size()) return findIn(s.th[t].stack, a);
	return nullptr;
}
static Obj &writable(ObjP &p) {
	if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
	return *p;
}
static ObjP mkObj(u64 base, u64 size, Kind k, const str &name, int init) {
	ObjP p = std::make_shared<Obj>();
	p->base = base; p->size = size; p->kind = k; p->name = name;
	p->b.assign(size, 0);
	p->st.assign(size, init < 0 ? 2 : 0);
	return p;
}
static u64 heapAlloc(State &s, u64 size, int init, u64 align = 16) {
	if (size > (1u << 26)) { giveUp("allocation above 64 MB"); s.dead = true; return 0; }
	u64 base = s.heapNext;
	s.heapNext += SPACING;
	/* Keep the low bits varied so that alignment is not stronger than asked */
	base += align >= 16 ? align : 16;
	if (align > 16) base = (base + align - 1) / align * align;
	s.heap.push_back(mkObj(base, size, HEAP, "heap", init));
	return base;
}
static u64 stackAlloc(State &s, u64 size, const str &name) {
	Thread &t = s.t();
	u64 base = t.stackNext + 16;
	t.stackNext += SPACING;
	t.stack.push_back(mkObj(base, size, STACK, name, -1));
	return base;
}
static str describe(ObjP *p, u64 a) {
	if (!p) return a < 4096 ? "null pointer" : "invalid pointer";
	Obj &o = **p;
	const char *k = o.kind == HEAP ? "heap" : o.kind == STACK ? "stack" : "global";
	char buf[200];
	snprintf(buf, sizeof buf, "%s object of %llu bytes", k, (unsigned long long)o.size);
	return str(buf) + (o.name.empty() || o.kind == HEAP ? "" : " (" + o.name + ")");
}

/* Resolves ptr for an access of n bytes. Returns the object and either a
 * concrete offset or a symbolic one proved within bounds. */
struct Res { ObjP *p = nullptr; u64 off = 0; E soff; };
static bool resolve(State &s, const Val &ptr, u64 n, bool write, Res &r, const char *what) {
	memChecks++;
	u64 a = ptr.sym() ? evalU(s, ptr.e) : ptr.c;
	ObjP *p = find(s, a);
	if (ptr.sym()) {
		/* Which object: fork on the others. */
		if (p) {
			u64 lo = (*p)->base - SPACING / 4, span = SPACING / 2;
			E in(Z3_mk_bvult(Z, E(Z3_mk_bvsub(Z, ptr.e.a, num(64, lo).a)).a, num(64, span).a));
			decide(s, in);
			if (s.dead) return false;
		}
		else {
			E eq(Z3_mk_eq(Z, ptr.e.a, num(64, a).a));
			decide(s, eq);
		}
	}
	if (!p || (*p)->freed) {
		str m = str(what) + " through " + (p ? "pointer to freed memory" : describe(p, a));
		fail(s, p ? "use-after-free" : "invalid-pointer", m);
		return false;
	}
	Obj &o = **p;
	if (write && o.ro) { fail(s, "write-constant", "write to constant " + o.name); return false; }
	if (!ptr.sym()) {
		u64 off = a - o.base;
		if (off > o.size || n > o.size - off) {
			fail(s, "out-of-bounds", str(what) + " outside " + describe(p, a));
			return false;
		}
		r.p = p; r.off = off;
		return true;
	}
	E off(Z3_mk_bvsub(Z, ptr.e.a, num(64, o.base).a));
	off = E(Z3_simplify(Z, off.a));
	if (o.size < n) { fail(s, "out-of-bounds", str(what) + " outside " + describe(p, a)); return false; }
	E ok(Z3_mk_bvule(Z, off.a, num(64, o.size - n).a));
	if (!require(s, ok, "out-of-bounds", str(what) + " outside " + describe(p, a))) return false;
	uint64_t u;
	if (Z3_get_ast_kind(Z, off.a) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, off.a, &u)) {
		r.off = u;
	}
	else r.soff = off;
	r.p = p;
	return true;
}
static E freshVar(State &s, unsigned w, const char *pfx) {
	char n[40];
	snprintf(n, sizeof n, "%s%u_%u", pfx, s.nsym++, w);
	return E(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), bvs(w)));
}
static E byteAt(State &s, ObjP &p, u64 i) {
	if (p->st[i] == 2) {
		Obj &o = writable(p);
		o.sym[i] = { freshVar(s, 8, "uninit"), 0 };
		s.uninit.push_back(o.sym[i].first);
		o.st[i] = 1;
	}
	if (p->st[i] == 0) return num(8, p->b[i]);
	auto &q = p->sym[i];
	unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, q.first.a));
	if (w == 8) return q.first;
	return E(Z3_simplify(Z, E(Z3_mk_extract(Z, q.second * 8 + 7, q.second * 8, q.first.a)).a));
}
static Val readAt(State &s, ObjP &p, u64 off, unsigned n) {
	Obj *o = p.get();
	bool conc = true;
	for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; }
	if (conc && n <= 8) {
		u64 v = 0;
		for (unsigned i = 0; i < n; i++) v |= (u64)o->b[off + i] << (8 * i);
		return Val(n * 8, v);
	}
	/* whole term back? */
	if (o->st[off] == 1) {
		auto &q = o->sym[off];
		if (q.second == 0 && Z3_get_bv_sort_size(Z, Z3_get_sort(Z, q.first.a)) == n * 8) {
			bool all = true;
			for (unsigned i = 1; i < n && all; i++) {
				if (o->st[off + i] != 1) { all = false; break; }
				auto &w = o->sym[off + i];
				if (w.first.a != q.first.a || w.second != i) all = false;
			}
			if (all) return Val(n * 8, q.first);
		}
	}
	E r = byteAt(s, p, off);
	for (unsigned i = 1; i < n; i++) {
		E b = byteAt(s, p, off + i);
		r = E(Z3_mk_concat(Z, b.a, r.a));
	}
	return fold(n * 8, r);
}
static void writeAt(State &s, ObjP &p, u64 off, unsigned n, const Val &v) {
	Obj &o = writable(p);
	if (!v.sym()) {
		for (unsigned i = 0; i < n; i++) {
			if (o.st[off + i] == 1) o.sym.erase(off + i);
			o.b[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
			o.st[off + i] = 0;
		}
		return;
	}
	for (unsigned i = 0; i < n; i++) {
		o.sym[off + i] = { v.e, i };
		o.st[off + i] = 1;
	}
}
static unsigned maxOffsets = 600;
/* Feasible concrete offsets of a bounded symbolic offset. */
static bool offsets(State &s, const E &off, std::vector<u64> &r) {
	State tmp; tmp.pc = s.pc; tmp.setModel(s.model);
	for (;;) {
		if (!tmp.model) {
			if (solve(tmp, nullptr, true) != Z3_L_TRUE) break;
		}
		u64 k = evalU(tmp, off);
		r.push_back(k);
		if (r.size() > maxOffsets) { giveUp("too many offsets for a symbolic access"); s.dead = true; return false; }
		tmp.pc.push_back(notE(E(Z3_mk_eq(Z, off.a, num(64, k).a))));
		tmp.setModel(nullptr);
	}
	return !r.empty();
}
static Val loadN(State &s, const Val &ptr, unsigned n) {
	Res r;
	if (!resolve(s, ptr, n, false, r, "read")) return Val(n * 8, (u64)0);
	if (!r.soff) return readAt(s, *r.p, r.off, n);
	std::vector<u64> k;
	if (!offsets(s, r.soff, k)) { s.dead = true; return Val(n * 8, (u64)0); }
	E v;
	for (size_t i = 0; i < k.size(); i++) {
		Val x = readAt(s, *r.p, k[i], n);
		if (i == 0) v = ex(x);
		else v = E(Z3_mk_ite(Z, E(Z3_mk_eq(Z, r.soff.a, num(64, k[i]).a)).a, ex(x).a, v.a));
	}
	return fold(n * 8, v);
}
static void storeN(State &s, const Val &ptr, unsigned n, const Val &v) {
	Res r;
	if (!resolve(s, ptr, n, true, r, "write")) return;
	if (!r.soff) { writeAt(s, *r.p, r.off, n, v); return; }
	std::vector<u64> k;
	if (!offsets(s, r.soff, k)) { s.dead = true; return; }
	std::vector<Val> nv;
	/* bytes: ite(off == k, new, old), overlapping candidates byte by byte */
	std::map<u64, E> upd;
	for (u64 o : k) {
		E c(Z3_mk_eq(Z, r.soff.a, num(64, o).a));
		for (unsigned i = 0; i < n; i++) {
			E nb = v.sym() ? E(Z3_mk_extract(Z, i * 8 + 7, i * 8, v.e.a)) : num(8, v.c >> (8 * i));
			auto f = upd.find(o + i);
			E old = f == upd.end() ? byteAt(s, *r.p, o + i) : f->second;
			upd[o + i] = E(Z3_mk_ite(Z, c.a, nb.a, old.a));
		}
	}
	for (auto &u : upd) {
		Val b = fold(8, u.second);
		writeAt(s, *r.p, u.first, 1, b);
	}
}

/* ------------------------------------------------------------ functions */
struct FInfo { DenseMap<const Value*, unsigned> slot; unsigned n = 0; };
static std::unordered_map<Function*, FInfo> finfo;
static FInfo &info(Function *f) {
	auto it = finfo.find(f);
	if (it != finfo.end()) return it->second;
	FInfo &i = finfo[f];
	for (auto &a : f->args()) i.slot[&a] = i.n++;
	for (auto &b : *f) for (auto &in : b) if (!in.getType()->isVoidTy()) i.slot[&in] = i.n++;
	return i;
}
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, Function*> fnAt;

static unsigned bitsOf(Type *t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	return 0;
}
static Val unsupported(State *s, const str &why) {
	giveUp("unsupported: " + why);
	if (s) s->dead = true;
	return Val(64, (u64)0);
}
static Val constant(const Constant *c, State *s) {
	Type *t = c->getType();
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) {
			/* wide constant: only via term */
			SmallString<64> sb; ci->getValue().toStringUnsigned(sb);
			return Val(ci->getBitWidth(), E(Z3_mk_numeral(Z, str(sb.str()).c_str(), bvs(ci->getBitWidth()))));
		}
		return Val(ci->getBitWidth(), ci->getZExtValue());
	}
	if (isa<ConstantPointerNull>(c)) return Val(64, (u64)0);
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		if (bitsOf(t) == 0) return unsupported(s, "floating point type");
		return Val(bitsOf(t), cf->getValueAPF().bitcastToAPInt().getZExtValue());
	}
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
		if (t->isStructTy() || t->isArrayTy()) {
			Val v; v.agg = std::make_shared<std::vector<Val>>();
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
			for (unsigned i = 0; i < n; i++) v.agg->push_back(constant(c->getAggregateElement(i), s));
			return v;
		}
		return Val(bitsOf(t), (u64)0);
	}
	if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
		Val v; v.agg = std::make_shared<std::vector<Val>>();
		for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(constant(ca->getOperand(i), s));
		return v;
	}
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee(), s);
	if (auto *gv = dyn_cast<GlobalValue>(c)) {
		auto f = gaddr.find(gv);
		if (f == gaddr.end()) return unsupported(s, "global " + gv->getName().str());
		return Val(64, f->second);
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto *g = cast<GEPOperator>(ce);
			APInt off(64, 0);
			Val b = constant(cast<Constant>(g->getPointerOperand()), s);
			if (!g->accumulateConstantOffset(*DL, off)) return unsupported(s, "constant gep");
			return Val(64, b.c + off.getZExtValue());
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
		case Instruction::Trunc: {
			Val b = constant(ce->getOperand(0), s);
			unsigned w = bitsOf(t);
			return Val(w, b.c & mask(w));
		}
		case Instruction::Sub: {
			Val a = constant(ce->getOperand(0), s), b = constant(ce->getOperand(1), s);
			return Val(a.w, (a.c - b.c) & mask(a.w)); }
		case Instruction::Add: {
			Val a = constant(ce->getOperand(0), s), b = constant(ce->getOperand(1), s);
			return Val(a.w, (a.c + b.c) & mask(a.w)); }
		default: break;
		}
	}
	str d; raw_string_ostream os(d); c->print(os);
	return unsupported(s, "constant " + os.str());
}
static void initGlobal(Obj &o, u64 off, const Constant *c) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		StringRef d = cd->getRawDataValues();
		memcpy(&o.b[off], d.data(), d.size());
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		auto *l = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++)
			initGlobal(o, off + l->getElementOffset(i), cs->getOperand(i));
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * sz, ca->getOperand(i));
		return;
	}
	Val v = constant(c, nullptr);
	unsigned n = (unsigned)DL->getTypeStoreSize(t);
	for (unsigned i = 0; i < n; i++) o.b[off + i] = (uint8_t)(v.c >> (8 * i));
}

static Val get(State &s, Frame &f, Value *v) {
	if (auto *c = dyn_cast<Constant>(v)) return constant(c, &s);
	auto &fi = finfo[f.f];
	auto it = fi.slot.find(v);
	if (it == fi.slot.end()) return unsupported(&s, "operand");
	return f.regs[it->second];
}
static void set(Frame &f, Instruction *i, const Val &v) {
	auto &fi = finfo[f.f];
	f.regs[fi.slot[i]] = v;
}
static Val get(State &s, Value *v) { return get(s, s.f(), v); }

static Val binop(State &s, unsigned op, const Val &a, const Val &b) {
	unsigned w = a.w;
	if (!a.sym() && !b.sym() && w <= 64) {
		u64 x = a.c, y = b.c, m = mask(w);
		switch (op) {
		case Instruction::Add: return Val(w, (x + y) & m);
		case Instruction::Sub: return Val(w, (x - y) & m);
		case Instruction::Mul: return Val(w, (x * y) & m);
		case Instruction::And: return Val(w, x & y);
		case Instruction::Or: return Val(w, x | y);
		case Instruction::Xor: return Val(w, x ^ y);
		case Instruction::Shl: return Val(w, y >= w ? 0 : (x << y) & m);
		case Instruction::LShr: return Val(w, y >= w ? 0 : x >> y);
		case Instruction::AShr: return Val(w, (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
		case Instruction::UDiv: return Val(w, y ? x / y : 0);
		case Instruction::URem: return Val(w, y ? x % y : 0);
		case Instruction::SDiv: { int64_t p = sx(x, w), q = sx(y, w);
			if (q == 0) return Val(w, (u64)0);
			if (q == -1) return Val(w, (u64)(0 - (u64)p) & m);
			return Val(w, (u64)(p / q) & m); }
		case Instruction::SRem: { int64_t p = sx(x, w), q = sx(y, w);
			if (q == 0 || q == -1) return Val(w, (u64)0);
			return Val(w, (u64)(p % q) & m); }
		}
	}
	/* light identities keep terms small */
	if (!b.sym() && b.c == 0 && w <= 64 && (op == Instruction::Add || op == Instruction::Sub ||
		op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl ||
		op == Instruction::LShr || op == Instruction::AShr)) return a;
	E x = ex(a), y = ex(b);
	Z3_ast r = nullptr;
	switch (op) {
	case Instruction::Add: r = Z3_mk_bvadd(Z, x.a, y.a); break;
	case Instruction::Sub: r = Z3_mk_bvsub(Z, x.a, y.a); break;
	case Instruction::Mul: r = Z3_mk_bvmul(Z, x.a, y.a); break;
	case Instruction::And: r = Z3_mk_bvand(Z, x.a, y.a); break;
	case Instruction::Or: r = Z3_mk_bvor(Z, x.a, y.a); break;
	case Instruction::Xor: r = Z3_mk_bvxor(Z, x.a, y.a); break;
	case Instruction::Shl: r = Z3_mk_bvshl(Z, x.a, y.a); break;
	case Instruction::LShr: r = Z3_mk_bvlshr(Z, x.a, y.a); break;
	case Instruction::AShr: r = Z3_mk_bvashr(Z, x.a, y.a); break;
	case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x.a, y.a); break;
	case Instruction::URem: r = Z3_mk_bvurem(Z, x.a, y.a); break;
	case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x.a, y.a); break;
	case Instruction::SRem: r = Z3_mk_bvsrem(Z, x.a, y.a); break;
	default: return unsupported(&s, "binary operator");
	}
	return fold(w, E(r));
}
static Val icmp(unsigned p, const Val &a, const Val &b) {
	unsigned w = a.w;
	if (!a.sym() && !b.sym()) {
		u64 x = a.c & mask(w), y = b.c & mask(w); int64_t p1 = sx(x, w), q1 = sx(y, w);
		bool r = false;
		switch (p) {
		case CmpInst::ICMP_EQ: r = x == y; break;
		case CmpInst::ICMP_NE: r = x != y; break;
		case CmpInst::ICMP_UGT: r = x > y; break;
		case CmpInst::ICMP_UGE: r = x >= y; break;
		case CmpInst::ICMP_ULT: r = x < y; break;
		case CmpInst::ICMP_ULE: r = x <= y; break;
		case CmpInst::ICMP_SGT: r = p1 > q1; break;
		case CmpInst::ICMP_SGE: r = p1 >= q1; break;
		case CmpInst::ICMP_SLT: r = p1 < q1; break;
		case CmpInst::ICMP_SLE: r = p1 <= q1; break;
		}
		return Val(1, (u64)r);
	}
	E x = ex(a), y = ex(b);
	Z3_ast r = nullptr;
	switch (p) {
	case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x.a, y.a); break;
	case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, x.a, y.a)); break;
	case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x.a, y.a); break;
	case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x.a, y.a); break;
	case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x.a, y.a); break;
	case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x.a, y.a); break;
	case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x.a, y.a); break;
	case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x.a, y.a); break;
	case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x.a, y.a); break;
	case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x.a, y.a); break;
	}
	return fromBool(E(r));
}
/* floating point, bits in bits out */
static Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static E toF(const Val &v) { return E(Z3_mk_fpa_to_fp_bv(Z, ex(v).a, fsort(v.w))); }
static double asD(const Val &v) {
	if (v.w == 32) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f; }
	double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromD(unsigned w, double d) {
	if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val(32, (u64)u); }
	u64 u; memcpy(&u, &d, 8); return Val(64, u);
}

/* forward */
static bool call(State &s, CallBase *ci, Function *f, std::vector<Val> args);
static void popFrame(State &s) {
	Thread &t = s.t();
	Frame &f = t.frames.back();
	while (t.stack.size() > f.stackMark) t.stack.pop_back();
	t.frames.pop_back();
}
static void jump(State &s, BasicBlock *to) {
	Frame &f = s.f();
	f.prev = f.bb; f.bb = to; f.it = to->begin();
	/* phis in parallel */
	std::vector<std::pair<PHINode*, Val>> ph;
	for (auto &i : *to) {
		auto *p = dyn_cast<PHINode>(&i);
		if (!p) break;
		ph.push_back({ p, get(s, p->getIncomingValueForBlock(f.prev)) });
	}
	for (auto &p : ph) set(f, p.first, p.second);
	while (isa<PHINode>(&*f.it)) ++f.it;
}
static void finish(State &s, Instruction *i, const Val &v) {
	/* result of a call, continue after it */
	Frame &f = s.f();
	if (!i->getType()->isVoidTy()) set(f, i, v);
	if (auto *inv = dyn_cast<InvokeInst>(i)) jump(s, inv->getNormalDest());
	else ++f.it;
}
static Val adapt(Val v, Type *t) {
	unsigned w = bitsOf(t);
	if (v.agg || w == 0 || v.w == w) return v;
	if (v.w > w) return v.sym() ? fold(w, E(Z3_mk_extract(Z, w - 1, 0, v.e.a))) : Val(w, v.c & mask(w));
	return v.sym() ? fold(w, E(Z3_mk_zero_ext(Z, w - v.w, v.e.a))) : Val(w, v.c);
}

/* ------------------------------------------------------------ scheduling */
static Val peekInt(State &s, u64 a) {
	ObjP *p = find(s, a);
	if (!p || (*p)->freed || a - (*p)->base + 4 > (*p)->size) return Val(32, (u64)0);
	return readAt(s, *p, a - (*p)->base, 4);
}
static bool runnable(State &s, int k) {
	Thread &t = s.th[k];
	if (t.done) return false;
	if (t.joins >= 0) {
		for (size_t i = 0; i < s.th.size(); i++)
			if ((int)i != k && !s.th[i].done) return false;
		return true;
	}
	if (t.blocked) {
		Val v = peekInt(s, t.blocked);
		return !v.sym() && v.c == 0;
	}
	return true;
}
/* Chooses who runs next; forks over the possibilities. Called after the
 * current instruction has been completed. canStay: current may go on. */
static void schedule(State &s, bool preemptive) {
	std::vector<int> r;
	for (size_t i = 0; i < s.th.size(); i++) if (runnable(s, (int)i)) r.push_back((int)i);
	if (r.empty()) {
		bool all = true;
		for (auto &t : s.th) if (!t.done) all = false;
		if (!all) fail(s, "deadlock", "no thread can run");
		return;
	}
	bool stay = runnable(s, s.cur);
	if (stay && preemptive && s.preempts >= (int)preemptBound) return;
	if (r.size() == 1) {
		s.cur = r[0];
	}
	else {
		/* an input: which thread continues */
		for (size_t i = 1; i < r.size(); i++) {
			StateP n(new State(s));
			forks++;
			if (stay && r[i] != s.cur) n->preempts++;
			n->cur = r[i];
			n->in.push_back({ E(), 8, (u64)r[i], true });
			n->t().blocked = 0; n->t().joins = -1;
			work.push_back(std::move(n));
		}
		if (stay && r[0] != s.cur) s.preempts++;
		s.cur = r[0];
		s.in.push_back({ E(), 8, (u64)r[0], true });
	}
	s.t().blocked = 0; s.t().joins = -1;
}

/* ------------------------------------------------------------ exceptions */
static bool typeMatches(State &s, u64 thrown, u64 want) {
	for (int d = 0; d < 16 && thrown; d++) {
		if (thrown == want) return true;
		/* __si_class_type_info: vptr, name, base */
		ObjP *p = find(s, thrown);
		if (!p || (*p)->size < 24) return false;
		Val b = readAt(s, *p, thrown - (*p)->base + 16, 8);
		thrown = b.c;
	}
	return false;
}
/* Unwinds the current thread to the next handler. */
static void unwind(State &s) {
	Thread &t = s.t();
	while (!t.frames.empty()) {
		Instruction *site = t.frames.back().site;
		popFrame(s);
		if (t.frames.empty() || !site) break;
		auto *inv = dyn_cast<InvokeInst>(site);
		if (!inv) continue;
		/* does the landing pad want it? */
		LandingPadInst *lp = inv->getLandingPadInst();
		Val sel(32, (u64)0);
		bool take = lp->isCleanup();
		for (unsigned k = 0; k < lp->getNumClauses(); k++) {
			if (!lp->isCatch(k)) { take = true; continue; }
			Val ti = constant(lp->getClause(k), &s);
			if (ti.c == 0 || typeMatches(s, t.excType, ti.c)) {
				take = true;
				/* selector = the type's id: its address truncated */
				sel.c = ti.c == 0 ? 1 : ((ti.c >> 40) & 0x7fffffff);
				break;
			}
		}
		if (!take) continue;
		jump(s, inv->getUnwindDest());
		Val v; v.agg = std::make_shared<std::vector<Val>>();
		v.agg->push_back(Val(64, t.excObj));
		v.agg->push_back(sel);
		set(s.f(), lp, v);
		Frame &f = s.f();
		f.it = std::next(BasicBlock::iterator(lp));
		return;
	}
	fail(s, "uncaught-exception", "exception not caught");
}

/* ------------------------------------------------------------ intrinsics */
static str cstr(State &s, const Val &p) {
	str r;
	if (p.sym()) return "?";
	ObjP *o = find(s, p.c);
	if (!o) return "?";
	for (u64 i = p.c - (*o)->base; i < (*o)->size; i++) {
		if ((*o)->st[i]) { r += '?'; continue; }
		if (!(*o)->b[i]) break;
		r += (char)(*o)->b[i];
	}
	return r;
}
static void doFree(State &s, const Val &p, const char *what) {
	u64 a = concretise(s, p);
	if (s.dead || a == 0) return;
	ObjP *o = find(s, a);
	if (!o || (*o)->kind != HEAP || (*o)->base != a) {
		fail(s, "invalid-free", str(what) + " of a pointer not returned by an allocation");
		return;
	}
	if ((*o)->freed) { fail(s, "double-free", str(what) + " of memory already freed"); return; }
	Obj &w = writable(*o);
	w.freed = true;
	w.sym.clear();
}
static void copyBytes(State &s, const Val &d, const Val &src, u64 n) {
	if (n == 0) return;
	Res a, b;
	if (!resolve(s, src, n, false, b, "read")) return;
	if (b.soff) { u64 k = concretise(s, Val(64, b.soff)); if (s.dead) return; b.off = k; b.soff = E(); }
	/* snapshot */
	std::vector<uint8_t> bb(n), st(n);
	std::vector<std::pair<E, unsigned>> sy(n);
	for (u64 i = 0; i < n; i++) {
		Obj &o = **b.p;
		st[i] = o.st[b.off + i];
		if (st[i] == 0) bb[i] = o.b[b.off + i];
		else if (st[i] == 1) sy[i] = o.sym[b.off + i];
	}
	if (!resolve(s, d, n, true, a, "write")) return;
	if (a.soff) { u64 k = concretise(s, Val(64, a.soff)); if (s.dead) return; a.off = k; a.soff = E(); }
	Obj &o = writable(*a.p);
	for (u64 i = 0; i < n; i++) {
		u64 k = a.off + i;
		if (o.st[k] == 1) o.sym.erase(k);
		o.st[k] = st[i];
		if (st[i] == 0) o.b[k] = bb[i];
		else if (st[i] == 1) o.sym[k] = sy[i];
	}
}
static void setBytes(State &s, const Val &d, const Val &v, u64 n) {
	if (n == 0) return;
	Res a;
	if (!resolve(s, d, n, true, a, "write")) return;
	if (a.soff) { u64 k = concretise(s, Val(64, a.soff)); if (s.dead) return; a.off = k; }
	Val b = v;
	for (u64 i = 0; i < n; i++) writeAt(s, *a.p, a.off + i, 1, b);
}
static Val newInput(State &s, unsigned w) {
	char n[32];
	snprintf(n, sizeof n, "in%u_%u", (unsigned)s.in.size(), w);
	E e(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), bvs(w)));
	s.in.push_back({ e, w, 0, false });
	return Val(w, e);
}
static void recordWitness(State &s, const str &msg) {
	if (witnesses.count(msg)) return;
	Wit w; w.msg = msg; w.in = inputs(s); w.out = outputs(s);
	witnesses[msg] = w;
}

typedef std::function<void(State&, CallBase*, std::vector<Val>&)> Builtin;
static std::unordered_map<str, Builtin> builtins;

static void pathEnd(State &s) {
	pathsDone++;
	if (samples.size() < maxSamples && (pathsDone & (pathsDone - 1)) == 0) {
		Sample x; x.in = inputs(s); x.out = outputs(s);
		samples.push_back(x);
	}
	s.dead = true;
}

static void setupBuiltins() {
	auto R = [](State &s, CallBase *c, Val v) { if (!s.dead) finish(s, c, adapt(v, c->getType())); };
	auto mal = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = concretise(s, a[0]); if (s.dead) return;
		R(s, c, Val(64, heapAlloc(s, n, -1))); };
	builtins["malloc"] = mal;
	builtins["_Znwm"] = mal; builtins["_Znam"] = mal;
	builtins["_ZnwmRKSt9nothrow_t"] = mal; builtins["_ZnamRKSt9nothrow_t"] = mal;
	builtins["calloc"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = concretise(s, a[0]) * concretise(s, a[1]); if (s.dead) return;
		R(s, c, Val(64, heapAlloc(s, n, 0))); };
	builtins["aligned_alloc"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 al = concretise(s, a[0]), n = concretise(s, a[1]); if (s.dead) return;
		R(s, c, Val(64, heapAlloc(s, n, -1, al))); };
	builtins["realloc"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 p = concretise(s, a[0]), n = concretise(s, a[1]); if (s.dead) return;
		u64 q = heapAlloc(s, n, -1);
		if (p) {
			ObjP *o = find(s, p);
			if (!o || (*o)->freed || (*o)->base != p) { fail(s, "invalid-free", "realloc of invalid pointer"); return; }
			u64 k = std::min(n, (*o)->size);
			copyBytes(s, Val(64, q), Val(64, p), k);
			doFree(s, Val(64, p), "realloc");
		}
		R(s, c, Val(64, q)); };
	auto fr = [=](State &s, CallBase *c, std::vector<Val> &a) {
		doFree(s, a[0], "free"); R(s, c, Val()); };
	builtins["free"] = fr;
	for (const char *n : { "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm" }) builtins[n] = fr;
	auto cpy = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = concretise(s, a[2]); if (s.dead) return;
		copyBytes(s, a[0], a[1], n);
		R(s, c, a[0]); };
	builtins["memcpy"] = cpy; builtins["memmove"] = cpy;
	builtins["memset"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = concretise(s, a[2]); if (s.dead) return;
		Val b = a[1];
		if (b.w != 8) b = b.sym() ? fold(8, E(Z3_mk_extract(Z, 7, 0, b.e.a))) : Val(8, b.c & 255);
		setBytes(s, a[0], b, n);
		R(s, c, a[0]); };
	builtins["verif_u8"] = [=](State &s, CallBase *c, std::vector<Val> &a) { R(s, c, newInput(s, 8)); };
	builtins["verif_u16"] = [=](State &s, CallBase *c, std::vector<Val> &a) { R(s, c, newInput(s, 16)); };
	builtins["verif_u32"] = [=](State &s, CallBase *c, std::vector<Val> &a) { R(s, c, newInput(s, 32)); };
	builtins["verif_u64"] = [=](State &s, CallBase *c, std::vector<Val> &a) { R(s, c, newInput(s, 64)); };
	builtins["verif_sym_assume"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		E b = notE(E(Z3_mk_eq(Z, ex(a[0]).a, num(a[0].w, 0).a)));
		b = E(Z3_simplify(Z, b.a));
		Z3_lbool l = Z3_get_bool_value(Z, b.a);
		if (l == Z3_L_FALSE) { s.dead = true; pathsKilled++; return; }
		if (l != Z3_L_TRUE) {
			bool had = s.model != nullptr && evalB(s, b);
			addPC(s, b);
			if (!had) {
				s.setModel(nullptr);
				if (solve(s, nullptr, true) != Z3_L_TRUE) { s.dead = true; pathsKilled++; return; }
			}
		}
		R(s, c, Val()); };
	builtins["verif_sym_assert"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		assertChecks++;
		str msg = cstr(s, a[1]);
		if (!a[0].sym()) {
			if (a[0].c == 0) { fail(s, "assertion", msg); return; }
		}
		else {
			E b = notE(E(Z3_mk_eq(Z, a[0].e.a, num(a[0].w, 0).a)));
			b = E(Z3_simplify(Z, b.a));
			if (Z3_get_bool_value(Z, b.a) != Z3_L_TRUE)
				if (!require(s, b, "assertion", msg)) return;
		}
		R(s, c, Val()); };
	builtins["verif_sym_witness"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		str msg = cstr(s, a[1]);
		if (!witnesses.count(msg)) {
			if (!a[0].sym()) { if (a[0].c) { recordWitness(s, msg); } }
			else {
				E b = notE(E(Z3_mk_eq(Z, a[0].e.a, num(a[0].w, 0).a)));
				State tmp; tmp.pc = s.pc; tmp.pc.push_back(b);
				if (solve(tmp, nullptr, true) == Z3_L_TRUE) {
					tmp.in = s.in; tmp.out = s.out;
					recordWitness(tmp, msg);
				}
			}
		}
		R(s, c, Val()); };
	builtins["verif_sym_observe"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		s.out.push_back(a[0]); R(s, c, Val()); };
	builtins["verif_sym_readable"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = concretise(s, a[1]); if (s.dead) return;
		Res r;
		if (n > 0 && !resolve(s, a[0], n, false, r, "read")) return;
		R(s, c, Val(32, 1)); };
	/* a concrete value on each path, forking over the possibilities */
	builtins["verif_split"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = concretise(s, a[0]); if (s.dead) return;
		R(s, c, Val(a[0].w, n)); };
	builtins["verif_live_heap"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 n = 0; for (auto &o : s.heap) if (!o->freed) n++;
		R(s, c, Val(64, n)); };
	builtins["verif_spawn"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 fa = concretise(s, a[0]); if (s.dead) return;
		auto fn = fnAt.find(fa);
		if (fn == fnAt.end()) { unsupported(&s, "spawn target"); return; }
		int id = (int)s.th.size();
		if (id > 15) { unsupported(&s, "too many threads"); return; }
		R(s, c, Val(32, (u64)id));
		s.th.emplace_back();
		Thread &t = s.th.back();
		t.stackNext = (u64)(32 + id) << 58;
		if (t.stackNext == 0) t.stackNext = SPACING;
		Frame f; f.f = fn->second; FInfo &fi = info(f.f);
		f.regs.resize(fi.n);
		if (f.f->arg_size() > 0) f.regs[0] = a[1];
		f.bb = &f.f->getEntryBlock(); f.it = f.bb->begin();
		funcsRun.insert(f.f->getName().str());
		t.frames.push_back(f); };
	builtins["verif_shared"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 p = concretise(s, a[0]); if (s.dead) return;
		bool r = false;
		ObjP *o = find(s, p);
		if (o) {
			if ((*o)->kind == HEAP) r = true;
			else if (yieldGlobals && (*o)->kind == GLOBAL && !(*o)->ro) r = true;
		}
		R(s, c, Val(32, (u64)r)); };
	builtins["verif_yield"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		R(s, c, Val()); if (!s.dead && s.th.size() > 1) schedule(s, true); };
	builtins["verif_wait_zero"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		R(s, c, Val()); if (s.dead) return;
		s.t().blocked = a[0].c; schedule(s, false); };
	builtins["verif_join_all"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		R(s, c, Val()); if (s.dead) return;
		s.t().joins = 1; schedule(s, false); };
	builtins["verif_thread_id"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		R(s, c, Val(32, (u64)s.cur)); };
	auto die = [=](State &s, CallBase *c, std::vector<Val> &a) { fail(s, "abort", "program aborts"); };
	builtins["abort"] = die; builtins["_ZSt9terminatev"] = die; builtins["__clang_call_terminate"] = die;
	builtins["exit"] = [=](State &s, CallBase *c, std::vector<Val> &a) { fail(s, "exit", "program exits"); };
	builtins["__assert_fail"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		fail(s, "code-assert", "assert(" + cstr(s, a[0]) + ") in the code"); };
	/* C++ exceptions */
	/* the rest is in lib/symx_cxx.cpp */
	builtins["verif_cxx_throw"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		s.t().excObj = a[0].c; s.t().excType = a[1].c;
		unwind(s); };
	builtins["__cxa_begin_catch"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		s.caught.push_back(a[0].c);
		R(s, c, a[0]); };
	builtins["verif_cxx_caught"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		R(s, c, Val(64, s.caught.empty() ? (u64)0 : s.caught.back())); };
	builtins["verif_cxx_end_catch"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		u64 p = 0;
		if (!s.caught.empty()) { p = s.caught.back(); s.caught.pop_back(); }
		R(s, c, Val(64, p)); };
	builtins["__cxa_atexit"] = [=](State &s, CallBase *c, std::vector<Val> &a) { R(s, c, Val(32, (u64)0)); };
	builtins["__cxa_guard_acquire"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		Val v = loadN(s, a[0], 1); if (s.dead) return;
		R(s, c, Val(32, (u64)(v.c == 0))); };
	builtins["__cxa_guard_release"] = [=](State &s, CallBase *c, std::vector<Val> &a) {
		storeN(s, a[0], 1, Val(8, 1)); R(s, c, Val()); };
	builtins["__cxa_pure_virtual"] = die;
}

static bool intrinsic(State &s, IntrinsicInst *ii) {
	auto arg = [&](unsigned k) { return get(s, ii->getArgOperand(k)); };
	auto ret = [&](Val v) { finish(s, ii, v); return true; };
	unsigned w = bitsOf(ii->getType());
	switch (ii->getIntrinsicID()) {
	case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
	case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch:
	case Intrinsic::invariant_start: case Intrinsic::invariant_end:
	case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation:
	case Intrinsic::vaend:
		return ret(Val(w, (u64)0));
	case Intrinsic::stacksave: case Intrinsic::returnaddress: case Intrinsic::frameaddress: return ret(Val(64, (u64)0));
	case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
		return ret(arg(0));
	case Intrinsic::objectsize: {
		return ret(Val(w, ~0ull & mask(w)));
	}
	case Intrinsic::is_constant: return ret(Val(1, (u64)0));
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
		u64 n = concretise(s, arg(2)); if (s.dead) return true;
		copyBytes(s, arg(0), arg(1), n);
		if (s.dead) return true;
		return ret(Val());
	}
	case Intrinsic::memset: {
		u64 n = concretise(s, arg(2)); if (s.dead) return true;
		setBytes(s, arg(0), arg(1), n);
		if (s.dead) return true;
		return ret(Val());
	}
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
		str k = "undefined behaviour";
		if (ii->getIntrinsicID() == Intrinsic::ubsantrap) {
			u64 h = arg(0).c;
			const char *names[] = { "add overflow", "builtin unreachable", "cfi", "divrem overflow",
				"dynamic type", "float cast overflow", "function type", "implicit conversion",
				"invalid builtin", "invalid objc", "load invalid value", "missing return",
				"mul overflow", "negate overflow", "null return", "nonnull arg", "nonnull return",
				"out of bounds index", "pointer overflow", "shift out of bounds", "sub overflow",
				"type mismatch", "alignment", "vla bound" };
			if (h < sizeof names / sizeof *names) k = names[h];
		}
		fail(s, "undefined", k);
		return true;
	}
	case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
		Val a = arg(0), b = arg(1);
		unsigned p = ii->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT :
			ii->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT :
			ii->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
		Val c = icmp(p, a, b);
		if (!c.sym()) return ret(c.c ? a : b);
		return ret(fold(w, E(Z3_mk_ite(Z, toBool(c).a, ex(a).a, ex(b).a))));
	}
	case Intrinsic::abs: {
		Val a = arg(0), z(a.w, (u64)0);
		Val c = icmp(CmpInst::ICMP_SLT, a, z), n = binop(s, Instruction::Sub, z, a);
		if (!c.sym()) return ret(c.c ? n : a);
		return ret(fold(w, E(Z3_mk_ite(Z, toBool(c).a, ex(n).a, ex(a).a))));
	}
	case Intrinsic::bswap: {
		Val a = arg(0); E r;
		for (unsigned i = 0; i < w / 8; i++) {
			E b(Z3_mk_extract(Z, i * 8 + 7, i * 8, ex(a).a));
			r = i == 0 ? b : E(Z3_mk_concat(Z, r.a, b.a));
		}
		return ret(fold(w, r));
	}
	case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
		Val a = arg(0);
		u64 x = concretise(s, a); if (s.dead) return true;
		u64 r = 0;
		if (ii->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(x);
		else if (ii->getIntrinsicID() == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w;
		else r = x ? __builtin_clzll(x) - (64 - w) : w;
		return ret(Val(w, r));
	}
	case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow:
	case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
	case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
		Val a = arg(0), b = arg(1);
		unsigned n = a.w;
		unsigned id = ii->getIntrinsicID();
		bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		unsigned op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add :
			(id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
		Val r = binop(s, op, a, b), o;
		if (!a.sym() && !b.sym()) {
			__int128 x = sg ? (__int128)sx(a.c, n) : (__int128)(a.c & mask(n)), y = sg ? (__int128)sx(b.c, n) : (__int128)(b.c & mask(n));
			__int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
			__int128 lo = sg ? -((__int128)1 << (n - 1)) : 0, hi = sg ? ((__int128)1 << (n - 1)) - 1 : ((__int128)1 << n) - 1;
			if (op == Instruction::Mul && !sg) {
				unsigned __int128 q = (unsigned __int128)(a.c & mask(n)) * (b.c & mask(n));
				o = Val(1, (u64)(q > (unsigned __int128)mask(n)));
			}
			else o = Val(1, (u64)(z < lo || z > hi));
		}
		else {
			E x = ex(a), y = ex(b);
			E ok;
			if (op == Instruction::Add) {
				ok = E(Z3_mk_bvadd_no_overflow(Z, x.a, y.a, sg));
				if (sg) { E u(Z3_mk_bvadd_no_underflow(Z, x.a, y.a)); Z3_ast l[] = { ok.a, u.a }; ok = E(Z3_mk_and(Z, 2, l)); }
			}
			else if (op == Instruction::Sub) {
				ok = E(Z3_mk_bvsub_no_underflow(Z, x.a, y.a, sg));
				if (sg) { E u(Z3_mk_bvsub_no_overflow(Z, x.a, y.a)); Z3_ast l[] = { ok.a, u.a }; ok = E(Z3_mk_and(Z, 2, l)); }
			}
			else {
				ok = E(Z3_mk_bvmul_no_overflow(Z, x.a, y.a, sg));
				if (sg) { E u(Z3_mk_bvmul_no_underflow(Z, x.a, y.a)); Z3_ast l[] = { ok.a, u.a }; ok = E(Z3_mk_and(Z, 2, l)); }
			}
			o = fromBool(notE(ok));
		}
		Val v; v.agg = std::make_shared<std::vector<Val>>(std::vector<Val>{ r, o });
		return ret(v);
	}
	case Intrinsic::usub_sat: {
		Val a = arg(0), b = arg(1);
		Val c = icmp(CmpInst::ICMP_ULT, a, b), r = binop(s, Instruction::Sub, a, b);
		if (!c.sym()) return ret(c.c ? Val(w, (u64)0) : r);
		return ret(fold(w, E(Z3_mk_ite(Z, toBool(c).a, num(w, 0).a, ex(r).a))));
	}
	case Intrinsic::fshl: case Intrinsic::fshr: {
		Val a = arg(0), b = arg(1), k = arg(2);
		if (k.sym()) { unsupported(&s, "symbolic funnel shift"); return true; }
		unsigned sh = (unsigned)(k.c % w);
		if (sh == 0) return ret(ii->getIntrinsicID() == Intrinsic::fshl ? a : b);
		if (ii->getIntrinsicID() == Intrinsic::fshr) sh = w - sh;
		return ret(binop(s, Instruction::Or, binop(s, Instruction::Shl, a, Val(w, (u64)sh)),
			binop(s, Instruction::LShr, b, Val(w, (u64)(w - sh)))));
	}
	case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fmuladd:
	case Intrinsic::copysign: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::pow: {
		Val a = arg(0);
		Val b = ii->arg_size() > 1 ? arg(1) : a, c = ii->arg_size() > 2 ? arg(2) : a;
		if (a.sym() || b.sym() || c.sym()) {
			if (ii->getIntrinsicID() == Intrinsic::fabs) return ret(binop(s, Instruction::And, a, Val(w, mask(w) >> 1)));
			unsupported(&s, "symbolic floating point intrinsic"); return true;
		}
		double x = asD(a), r = 0;
		switch (ii->getIntrinsicID()) {
		case Intrinsic::fabs: r = fabs(x); break;
		case Intrinsic::floor: r = floor(x); break;
		case Intrinsic::ceil: r = ceil(x); break;
		case Intrinsic::trunc: r = trunc(x); break;
		case Intrinsic::rint: r = rint(x); break;
		case Intrinsic::pow: r = pow(x, asD(b)); break;
		case Intrinsic::copysign: r = copysign(x, asD(b)); break;
		default: r = w == 32 ? (double)((float)x * (float)asD(b) + (float)asD(c)) : x * asD(b) + asD(c);
		}
		return ret(fromD(w, r));
	}
	case Intrinsic::vastart: {
		/* everything in the overflow area, eight byte slots */
		Frame &f = s.f();
		u64 n = f.varargs.size() * 8;
		u64 area = stackAlloc(s, n ? n : 8, "varargs");
		for (size_t i = 0; i < f.varargs.size(); i++) {
			Val v = f.varargs[i];
			if (v.w < 64) v = v.sym() ? fold(64, E(Z3_mk_zero_ext(Z, 64 - v.w, v.e.a))) : Val(64, v.c);
			storeN(s, Val(64, area + i * 8), 8, v);
		}
		Val ap = arg(0);
		storeN(s, ap, 4, Val(32, 48)); 
		storeN(s, Val(64, ap.c + 4), 4, Val(32, 176));
		storeN(s, Val(64, ap.c + 8), 8, Val(64, area));
		storeN(s, Val(64, ap.c + 16), 8, Val(64, (u64)0));
		if (s.dead) return true;
		return ret(Val());
	}
	case Intrinsic::vacopy:
		copyBytes(s, arg(0), arg(1), 24);
		if (s.dead) return true;
		return ret(Val());
	case Intrinsic::eh_typeid_for: {
		Val t = arg(0);
		return ret(Val(32, (t.c >> 40) & 0x7fffffff));
	}
	default: break;
	}
	unsupported(&s, "intrinsic " + ii->getCalledFunction()->getName().str());
	return true;
}

static bool call(State &s, CallBase *ci, Function *f, std::vector<Val> args) {
	str name = f->getName().str();
	if (f->isDeclaration() || name.compare(0, 6, "verif_") == 0) {
		auto b = builtins.find(name);
		if (b != builtins.end()) { b->second(s, ci, args); return true; }
	}
	if (f->isDeclaration()) {
		unsupported(&s, "no body for " + name);
		return true;
	}
	funcsRun.insert(name);
	FInfo &fi = info(f);
	Frame n;
	n.f = f; n.site = ci; n.stackMark = s.t().stack.size();
	n.regs.resize(fi.n);
	size_t k = 0;
	for (auto &a : f->args()) {
		if (k >= args.size()) { unsupported(&s, "too few arguments to " + name); return true; }
		Val v = args[k];
		if (a.hasByValAttr()) {
			u64 sz = DL->getTypeAllocSize(a.getParamByValType());
			u64 p = stackAlloc(s, sz, "byval");
			copyBytes(s, Val(64, p), v, sz);
			if (s.dead) return true;
			v = Val(64, p);
		}
		n.regs[fi.slot[&a]] = v;
		k++;
	}
	for (; k < args.size(); k++) n.varargs.push_back(args[k]);
	n.bb = &f->getEntryBlock(); n.it = n.bb->begin();
	if (s.t().frames.size() > 400) { fail(s, "recursion", "call depth above 400"); return true; }
	s.t().frames.push_back(std::move(n));
	return true;
}

static Val loadTy(State &s, const Val &p, Type *t) {
	if (t->isStructTy() || t->isArrayTy()) {
		Val v; v.agg = std::make_shared<std::vector<Val>>();
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) {
			Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i)
				: i * (u64)DL->getTypeAllocSize(et);
			v.agg->push_back(loadTy(s, binop(s, Instruction::Add, p, Val(64, off)), et));
			if (s.dead) return v;
		}
		return v;
	}
	unsigned w = bitsOf(t);
	if (w == 0) return unsupported(&s, "load type");
	unsigned n = (w + 7) / 8;
	Val v = loadN(s, p, n);
	if (v.w != w) return adapt(v, t);
	return v;
}
static void storeTy(State &s, const Val &p, Type *t, const Val &v) {
	if (t->isStructTy() || t->isArrayTy()) {
		for (unsigned i = 0; i < v.agg->size(); i++) {
			Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i)
				: i * (u64)DL->getTypeAllocSize(et);
			storeTy(s, binop(s, Instruction::Add, p, Val(64, off)), et, (*v.agg)[i]);
			if (s.dead) return;
		}
		return;
	}
	unsigned w = bitsOf(t);
	if (w == 0) { unsupported(&s, "store type"); return; }
	unsigned n = (w + 7) / 8;
	Val x = v;
	if (x.w != n * 8) x = x.sym() ? fold(n * 8, E(Z3_mk_zero_ext(Z, n * 8 - x.w, x.e.a))) : Val(n * 8, x.c & mask(w));
	storeN(s, p, n, x);
}

static void step(State &s) {
	Frame &f = s.f();
	Instruction *i = &*f.it;
	instrs++; s.steps++;
	switch (i->getOpcode()) {
	case Instruction::Alloca: {
		auto *a = cast<AllocaInst>(i);
		u64 n = 1;
		if (a->isArrayAllocation()) { n = concretise(s, get(s, a->getArraySize())); if (s.dead) return; }
		u64 p = stackAlloc(s, n * DL->getTypeAllocSize(a->getAllocatedType()), a->getName().str());
		set(f, i, Val(64, p)); ++f.it; return;
	}
	case Instruction::Load: {
		auto *l = cast<LoadInst>(i);
		Val v = loadTy(s, get(s, l->getPointerOperand()), l->getType());
		if (s.dead) return;
		set(s.f(), i, v); ++s.f().it; return;
	}
	case Instruction::Store: {
		auto *l = cast<StoreInst>(i);
		storeTy(s, get(s, l->getPointerOperand()), l->getValueOperand()->getType(), get(s, l->getValueOperand()));
		if (s.dead) return;
		++s.f().it; return;
	}
	case Instruction::GetElementPtr: {
		auto *g = cast<GEPOperator>(i);
		Val b = get(s, g->getPointerOperand());
		unsigned W = 64;
		MapVector<Value*, APInt> var; APInt c(64, 0);
		if (!g->collectOffset(*DL, W, var, c)) { unsupported(&s, "gep"); return; }
		b = binop(s, Instruction::Add, b, Val(64, c.getZExtValue()));
		for (auto &v : var) {
			Val x = get(s, v.first);
			if (x.w < 64) x = x.sym() ? fold(64, E(Z3_mk_sign_ext(Z, 64 - x.w, x.e.a))) : Val(64, (u64)sx(x.c, x.w));
			x = binop(s, Instruction::Mul, x, Val(64, v.second.getZExtValue()));
			b = binop(s, Instruction::Add, b, x);
		}
		set(f, i, b); ++f.it; return;
	}
	case Instruction::ICmp: {
		auto *c = cast<ICmpInst>(i);
		set(f, i, icmp(c->getPredicate(), get(s, c->getOperand(0)), get(s, c->getOperand(1))));
		++f.it; return;
	}
	case Instruction::FCmp: {
		auto *c = cast<FCmpInst>(i);
		Val a = get(s, c->getOperand(0)), b = get(s, c->getOperand(1));
		auto p = c->getPredicate();
		if (!a.sym() && !b.sym()) {
			double x = asD(a), y = asD(b);
			bool un = std::isnan(x) || std::isnan(y), r = false;
			switch (p & 7) {
			case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break;
			case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break;
			case 6: r = x != y; break; case 7: r = true; break;
			}
			if (un) r = (p & 8) != 0;
			set(f, i, Val(1, (u64)r)); ++f.it; return;
		}
		E x = toF(a), y = toF(b), r;
		switch (p & 7) {
		case 0: r = falseE; break;
		case 1: r = E(Z3_mk_fpa_eq(Z, x.a, y.a)); break;
		case 2: r = E(Z3_mk_fpa_gt(Z, x.a, y.a)); break;
		case 3: r = E(Z3_mk_fpa_geq(Z, x.a, y.a)); break;
		case 4: r = E(Z3_mk_fpa_lt(Z, x.a, y.a)); break;
		case 5: r = E(Z3_mk_fpa_leq(Z, x.a, y.a)); break;
		case 6: r = notE(E(Z3_mk_fpa_eq(Z, x.a, y.a))); break;
		case 7: r = trueE; break;
		}
		Z3_ast l[] = { Z3_mk_fpa_is_nan(Z, x.a), Z3_mk_fpa_is_nan(Z, y.a) };
		E un(Z3_mk_or(Z, 2, l));
		if (p & 8) { Z3_ast q[] = { un.a, r.a }; r = E(Z3_mk_or(Z, 2, q)); }
		else { Z3_ast nn = Z3_mk_not(Z, un.a); Z3_ast q[] = { nn, r.a }; r = E(Z3_mk_and(Z, 2, q)); }
		set(f, i, fromBool(r)); ++f.it; return;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
		Val a = get(s, i->getOperand(0)), b = get(s, i->getOperand(1));
		if (!a.sym() && !b.sym()) {
			double x = asD(a), y = asD(b), r = 0;
			switch (i->getOpcode()) {
			case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break;
			case Instruction::FMul: r = x * y; break; default: r = x / y; }
			set(f, i, fromD(a.w, r)); ++f.it; return;
		}
		E x = toF(a), y = toF(b); E rm(Z3_mk_fpa_rne(Z));
		Z3_ast r = nullptr;
		switch (i->getOpcode()) {
		case Instruction::FAdd: r = Z3_mk_fpa_add(Z, rm.a, x.a, y.a); break;
		case Instruction::FSub: r = Z3_mk_fpa_sub(Z, rm.a, x.a, y.a); break;
		case Instruction::FMul: r = Z3_mk_fpa_mul(Z, rm.a, x.a, y.a); break;
		default: r = Z3_mk_fpa_div(Z, rm.a, x.a, y.a); }
		E e(r);
		set(f, i, fold(a.w, E(Z3_mk_fpa_to_ieee_bv(Z, e.a)))); ++f.it; return;
	}
	case Instruction::FNeg: {
		Val a = get(s, i->getOperand(0));
		set(f, i, binop(s, Instruction::Xor, a, Val(a.w, 1ull << (a.w - 1)))); ++f.it; return;
	}
	case Instruction::SIToFP: case Instruction::UIToFP: {
		Val a = get(s, i->getOperand(0)); unsigned w = bitsOf(i->getType());
		bool sg = i->getOpcode() == Instruction::SIToFP;
		if (!a.sym()) {
			if (w == 32) { float x = sg ? (float)sx(a.c, a.w) : (float)(a.c & mask(a.w)); uint32_t u; memcpy(&u, &x, 4); set(f, i, Val(32, (u64)u)); }
			else set(f, i, fromD(w, sg ? (double)sx(a.c, a.w) : (double)(a.c & mask(a.w))));
		}
		else {
			E rm(Z3_mk_fpa_rne(Z));
			E x(sg ? Z3_mk_fpa_to_fp_signed(Z, rm.a, a.e.a, fsort(w)) : Z3_mk_fpa_to_fp_unsigned(Z, rm.a, a.e.a, fsort(w)));
			set(f, i, fold(w, E(Z3_mk_fpa_to_ieee_bv(Z, x.a))));
		}
		++f.it; return;
	}
	case Instruction::FPToSI: case Instruction::FPToUI: {
		Val a = get(s, i->getOperand(0)); unsigned w = bitsOf(i->getType());
		bool sg = i->getOpcode() == Instruction::FPToSI;
		if (!a.sym()) {
			double d = asD(a);
			set(f, i, Val(w, (sg ? (u64)(int64_t)d : (u64)d) & mask(w)));
		}
		else {
			E rm(Z3_mk_fpa_rtz(Z)); E x = toF(a);
			set(f, i, fold(w, E(sg ? Z3_mk_fpa_to_sbv(Z, rm.a, x.a, w) : Z3_mk_fpa_to_ubv(Z, rm.a, x.a, w))));
		}
		++f.it; return;
	}
	case Instruction::FPExt: case Instruction::FPTrunc: {
		Val a = get(s, i->getOperand(0)); unsigned w = bitsOf(i->getType());
		if (!a.sym()) set(f, i, fromD(w, asD(a)));
		else {
			E rm(Z3_mk_fpa_rne(Z)); E x = toF(a);
			E y(Z3_mk_fpa_to_fp_float(Z, rm.a, x.a, fsort(w)));
			set(f, i, fold(w, E(Z3_mk_fpa_to_ieee_bv(Z, y.a))));
		}
		++f.it; return;
	}
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
		Val a = get(s, i->getOperand(0));
		unsigned w = bitsOf(i->getType());
		if (w == 0 || w > 128) { unsupported(&s, "cast"); return; }
		Val r;
		if (w == a.w) r = a;
		else if (w < a.w) r = a.sym() ? fold(w, E(Z3_mk_extract(Z, w - 1, 0, a.e.a))) : Val(w, a.c & mask(w));
		else if (w > 64) {
			E e(i->getOpcode() == Instruction::SExt ? Z3_mk_sign_ext(Z, w - a.w, ex(a).a) : Z3_mk_zero_ext(Z, w - a.w, ex(a).a));
			r = Val(w, E(Z3_simplify(Z, e.a)));
		}
		else if (i->getOpcode() == Instruction::SExt)
			r = a.sym() ? fold(w, E(Z3_mk_sign_ext(Z, w - a.w, a.e.a))) : Val(w, (u64)sx(a.c, a.w) & mask(w));
		else r = a.sym() ? fold(w, E(Z3_mk_zero_ext(Z, w - a.w, a.e.a))) : Val(w, a.c & mask(a.w));
		set(f, i, r); ++f.it; return;
	}
	case Instruction::Freeze: set(f, i, get(s, i->getOperand(0))); ++f.it; return;
	case Instruction::Select: {
		Val c = get(s, i->getOperand(0)), a = get(s, i->getOperand(1)), b = get(s, i->getOperand(2));
		Val r;
		if (!c.sym()) r = c.c ? a : b;
		else if (i->getType()->isPointerTy() || a.agg) { bool t = decide(s, toBool(c)); if (s.dead) return; r = t ? a : b; }
		else r = fold(a.w, E(Z3_mk_ite(Z, toBool(c).a, ex(a).a, ex(b).a)));
		set(s.f(), i, r); ++s.f().it; return;
	}
	case Instruction::Br: {
		auto *b = cast<BranchInst>(i);
		if (b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; }
		Val c = get(s, b->getCondition());
		bool t = c.sym() ? decide(s, toBool(c)) : c.c != 0;
		if (s.dead) return;
		jump(s, b->getSuccessor(t ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto *w = cast<SwitchInst>(i);
		Val c = get(s, w->getCondition());
		if (!c.sym()) {
			for (auto &k : w->cases()) if (k.getCaseValue()->getZExtValue() == c.c) { jump(s, k.getCaseSuccessor()); return; }
			jump(s, w->getDefaultDest()); return;
		}
		for (auto &k : w->cases()) {
			E eq(Z3_mk_eq(Z, c.e.a, num(c.w, k.getCaseValue()->getZExtValue()).a));
			bool t = decide(s, eq);
			if (s.dead) return;
			if (t) { jump(s, k.getCaseSuccessor()); return; }
		}
		jump(s, w->getDefaultDest()); return;
	}
	case Instruction::Ret: {
		auto *r = cast<ReturnInst>(i);
		Val v;
		if (r->getReturnValue()) v = get(s, r->getReturnValue());
		Instruction *site = f.site;
		popFrame(s);
		Thread &t = s.t();
		if (t.frames.empty()) {
			if (s.cur == 0) { pathEnd(s); return; }
			t.done = true;
			schedule(s, false);
			return;
		}
		finish(s, site, v);
		return;
	}
	case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached"); return;
	case Instruction::ExtractValue: {
		auto *x = cast<ExtractValueInst>(i);
		Val v = get(s, x->getAggregateOperand());
		for (unsigned k : x->indices()) { Val n = (*v.agg)[k]; v = n; }
		set(f, i, v); ++f.it; return;
	}
	case Instruction::InsertValue: {
		auto *x = cast<InsertValueInst>(i);
		Val v = get(s, x->getAggregateOperand()), n = get(s, x->getInsertedValueOperand());
		std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned d) -> Val {
			if (d == x->getNumIndices()) return n;
			a.agg = std::make_shared<std::vector<Val>>(*a.agg);
			unsigned k = x->getIndices()[d];
			(*a.agg)[k] = ins((*a.agg)[k], d + 1);
			return a; };
		set(f, i, ins(v, 0)); ++f.it; return;
	}
	case Instruction::Fence: ++f.it; return;
	case Instruction::AtomicCmpXchg: {
		auto *x = cast<AtomicCmpXchgInst>(i);
		Type *t = x->getNewValOperand()->getType();
		Val p = get(s, x->getPointerOperand());
		Val o = loadTy(s, p, t); if (s.dead) return;
		Val c = icmp(CmpInst::ICMP_EQ, o, get(s, x->getCompareOperand()));
		bool eq = c.sym() ? decide(s, toBool(c)) : c.c != 0;
		if (s.dead) return;
		if (eq) { storeTy(s, p, t, get(s, x->getNewValOperand())); if (s.dead) return; }
		Val v; v.agg = std::make_shared<std::vector<Val>>(std::vector<Val>{ o, Val(1, (u64)eq) });
		set(s.f(), i, v); ++s.f().it; return;
	}
	case Instruction::AtomicRMW: {
		auto *x = cast<AtomicRMWInst>(i);
		Type *t = x->getValOperand()->getType();
		Val p = get(s, x->getPointerOperand()), v = get(s, x->getValOperand());
		Val o = loadTy(s, p, t); if (s.dead) return;
		Val n;
		switch (x->getOperation()) {
		case AtomicRMWInst::Xchg: n = v; break;
		case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, v); break;
		case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, v); break;
		case AtomicRMWInst::And: n = binop(s, Instruction::And, o, v); break;
		case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, v); break;
		case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, o, v); break;
		default: unsupported(&s, "atomicrmw"); return;
		}
		storeTy(s, p, t, n); if (s.dead) return;
		set(s.f(), i, o); ++s.f().it; return;
	}
	case Instruction::Resume: {
		unwind(s); return;
	}
	case Instruction::LandingPad: ++f.it; return;
	case Instruction::Call: case Instruction::Invoke: {
		auto *c = cast<CallBase>(i);
		if (auto *ii = dyn_cast<IntrinsicInst>(c)) { intrinsic(s, ii); return; }
		if (c->isInlineAsm()) { unsupported(&s, "inline assembly"); return; }
		Value *cv = c->getCalledOperand()->stripPointerCasts();
		if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
		Function *fn = dyn_cast<Function>(cv);
		if (!fn) {
			Val p = get(s, c->getCalledOperand());
			u64 a = concretise(s, p);
			if (s.dead) return;
			auto it = fnAt.find(a);
			if (it == fnAt.end()) { fail(s, "invalid-pointer", a == 0 ? "call through null pointer" : "call through invalid pointer"); return; }
			fn = it->second;
		}
		if (fn->isIntrinsic()) { intrinsic(s, cast<IntrinsicInst>(c)); return; }
		std::vector<Val> args;
		for (auto &a : c->args()) {
			if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
			args.push_back(get(s, a));
		}
		call(s, c, fn, std::move(args));
		return;
	}
	default: {
		if (i->isBinaryOp()) {
			Val a = get(s, i->getOperand(0)), b = get(s, i->getOperand(1));
			unsigned op = i->getOpcode();
			if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
				if (b.sym()) {
					E nz = notE(E(Z3_mk_eq(Z, b.e.a, num(b.w, 0).a)));
					if (!require(s, nz, "undefined", "division by zero")) return;
				}
				else if (b.c == 0) { fail(s, "undefined", "division by zero"); return; }
			}
			Val r = binop(s, op, a, b);
			if (s.dead) return;
			set(s.f(), i, r); ++s.f().it; return;
		}
		str d; raw_string_ostream os(d); i->print(os);
		unsupported(&s, "instruction " + os.str());
	}
	}
}

static void jstr(FILE *o, const str &x) {
	fputc('"', o);
	for (unsigned char c : x) {
		if (c == '"' || c == '\\') fprintf(o, "\\%c", c);
		else if (c == '\n') fputs("\\n", o);
		else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c);
		else fputc(c, o);
	}
	fputc('"', o);
}
static void jvec(FILE *o, const std::vector<u64> &v) {
	fputc('[', o);
	for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)v[i]);
	fputc(']', o);
}
static str outFile;
static volatile bool stopping = false;
static void writeOut() {
	FILE *o = fopen(outFile.c_str(), "w");
	if (!o) return;
	fprintf(o, "{\"complete\":%s,\"why\":[", incomplete ? "false" : "true");
	bool c = false;
	for (auto &w : incompleteWhy) { if (c) fputc(',', o); jstr(o, w); c = true; }
	fprintf(o, "],\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"instrs\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,"
		"\"assert_checks\":%llu,\"memory_checks\":%llu,\"pending\":%zu,\"sat_queries\":%llu,\"z3_queries\":%llu,\"cross_checked\":%llu,\n\"errors\":[",
		(unsigned long long)pathsDone, (unsigned long long)pathsKilled, (unsigned long long)forks, (unsigned long long)instrs,
		(unsigned long long)queries, solverTime, now() - T0, (unsigned long long)assertChecks, (unsigned long long)memChecks, work.size(),
		(unsigned long long)satQueries, (unsigned long long)z3Queries, (unsigned long long)crossChecked);
	c = false;
	for (auto &k : errorOrder) {
		auto &e = errors[k];
		if (c) fputs(",\n", o);
		c = true;
		fputs("{\"kind\":", o); jstr(o, e.kind); fputs(",\"msg\":", o); jstr(o, e.msg);
		fputs(",\"where\":", o); jstr(o, e.where); fputs(",\"function\":", o); jstr(o, e.fn);
		fputs(",\"trace\":", o); jstr(o, e.stackTrace);
		fprintf(o, ",\"count\":%llu,\"inputs\":", (unsigned long long)e.count); jvec(o, e.in);
		fputs(",\"outputs\":", o); jvec(o, e.out); fputs("}", o);
	}
	fputs("],\n\"witnesses\":[", o);
	c = false;
	for (auto &k : witnesses) {
		if (c) fputs(",\n", o);
		c = true;
		fputs("{\"msg\":", o); jstr(o, k.first); fputs(",\"inputs\":", o); jvec(o, k.second.in);
		fputs(",\"outputs\":", o); jvec(o, k.second.out); fputs("}", o);
	}
	fputs("],\n\"witness_names\":[", o);
	c = false;
	for (auto &k : witnessNames) { if (c) fputc(',', o); jstr(o, k); c = true; }
	fputs("],\n\"samples\":[", o);
	c = false;
	for (auto &k : samples) {
		if (c) fputs(",\n", o);
		c = true;
		fputs("{\"inputs\":", o); jvec(o, k.in); fputs(",\"outputs\":", o); jvec(o, k.out); fputs("}", o);
	}
	fputs("],\n\"functions\":[", o);
	c = false;
	for (auto &k : funcsRun) { if (c) fputc(',', o); jstr(o, k); c = true; }
	fputs("]}\n", o);
	fclose(o);
}
bool Blaster::stoppingFlag() { return stopping; }
static void onTerm(int) { stopping = true; Z3_interrupt(Z); }

static void z3err(Z3_context c, Z3_error_code e) {
	fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
	giveUp(str("z3 error: ") + Z3_get_error_msg(c, e));
}

int main(int argc, char **argv) {
	str file, entry = "harness";
	double limit = 1e9;
	bool bfs = false;
	int jobs = 1;
	for (int i = 1; i < argc; i++) {
		str a = argv[i];
		auto next = [&]() { return str(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--entry") entry = next();
		else if (a == "--out") outFile = next();
		else if (a == "--time") limit = atof(next().c_str());
		else if (a == "--max-steps") maxSteps = strtoull(next().c_str(), 0, 10);
		else if (a == "--yield-globals") yieldGlobals = true;
		else if (a == "--preempt") preemptBound = atoi(next().c_str());
		else if (a == "--query-ms") queryTimeout = atoi(next().c_str());
		else if (a == "--max-offsets") maxOffsets = atoi(next().c_str());
		else if (a == "--no-inc") useInc = false;
		else if (a == "--z3") useZ3 = true;
		else if (a == "--cross") cross = true;
		else if (a == "--bfs") bfs = true;
		else if (a == "--jobs") jobs = atoi(next().c_str());
		else if (a == "--samples") maxSamples = atoi(next().c_str());
		else file = a;
	}
	T0 = now();
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(Z, z3err);
	trueE = E(Z3_mk_true(Z)); falseE = E(Z3_mk_false(Z));
	S = newSolver();
	signal(SIGTERM, onTerm);
	LLVMContext ctx;
	SMDiagnostic diag;
	std::unique_ptr<Module> mod = parseIRFile(file, diag, ctx);
	if (!mod) { diag.print("symx", errs()); return 4; }
	M = mod.get();
	DL = &M->getDataLayout();
	setupBuiltins();
	StateP s0(new State());
	/* addresses */
	u64 g = SPACING, fa = (15ull << 58);
	for (auto &f : *M) { gaddr[&f] = fa; fnAt[fa] = &f; fa += 16; }
	for (auto &v : M->globals()) { gaddr[&v] = g + 64; g += SPACING; }
	u64 k = 0;
	for (auto &v : M->globals()) {
		Type *t = v.getValueType();
		u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 8;
		if (sz == 0) sz = v.isDeclaration() ? 64 : 0;
		ObjP o = mkObj(gaddr[&v], sz, GLOBAL, v.getName().str(), 0);
		if (v.hasInitializer()) initGlobal(*o, 0, v.getInitializer());
		o->ro = v.isConstant();
		s0->globals.push_back(o);
		k++;
	}
	incomplete = false; incompleteWhy.clear(); /* unsupported constants only matter when used */
	Function *ef = M->getFunction(entry);
	if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 4; }
	/* names of all witnesses present in the code */
	for (auto &fn : *M) for (auto &b : fn) for (auto &in : b) {
		auto *c = dyn_cast<CallBase>(&in);
		if (!c || !c->getCalledFunction() || c->getCalledFunction()->getName() != "verif_sym_witness") continue;
		Constant *a = dyn_cast<Constant>(c->getArgOperand(1));
		if (a) { Val p = constant(a, nullptr); witnessNames.insert(cstr(*s0, p) + "\t" + fn.getName().str()); }
	}
	s0->th.emplace_back();
	s0->th[0].stackNext = 32ull << 58;
	/* static constructors, then the entry */
	std::vector<Function*> ctors;
	if (auto *gv = M->getGlobalVariable("llvm.global_ctors"))
		if (gv->hasInitializer())
			if (auto *ca = dyn_cast<ConstantArray>(gv->getInitializer()))
				for (auto &op : ca->operands())
					if (auto *cs = dyn_cast<ConstantStruct>(op))
						if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(fn);
	auto pushEntry = [&](Function *fn) {
		Frame f; f.f = fn; FInfo &fi = info(fn); f.regs.resize(fi.n);
		f.bb = &fn->getEntryBlock(); f.it = f.bb->begin();
		s0->th[0].frames.push_back(f); };
	for (auto *c : ctors) {
		/* run to completion, concretely */
		pushEntry(c);
		size_t d = s0->th[0].frames.size();
		u64 before = pathsDone;
		while (!s0->dead && s0->th[0].frames.size() >= d) step(*s0);
		if (pathsDone > before) { pathsDone = before; s0->dead = false; samples.clear(); }
		if (s0->dead) { fprintf(stderr, "constructor failed\n"); giveUp("static constructor failed"); break; }
	}
	pushEntry(ef);
	funcsRun.insert(entry);
	if (!incomplete) work.push_back(std::move(s0));
	/* Workers take states of the frontier from a shared counter; one that has
	 * finished leaves its slot, and a busy one forks to fill it. */
	struct Shared { std::atomic<unsigned> next, idle, id; };
	Shared *sh = nullptr;
	std::vector<pid_t> kids;
	std::vector<StateP> all;
	bool worker = false;
	str base = outFile;
	auto asWorker = [&](unsigned id) {
		pathsDone = pathsKilled = forks = instrs = queries = assertChecks = memChecks = 0;
		satQueries = z3Queries = crossChecked = 0;
		solverTime = 0;
		errors.clear(); samples.clear();
		outFile = base + "." + std::to_string(id);
		kids.clear();
		worker = true;
	};
	auto donate = [&]() {
		unsigned n = sh->idle.load();
		while (n > 0 && !sh->idle.compare_exchange_weak(n, n - 1));
		if (n == 0) return;
		unsigned id = sh->id++;
		pid_t p = fork();
		if (p < 0) { sh->idle++; return; }
		/* the oldest state has the most left to do */
		std::vector<StateP> half;
		for (size_t i = 0; i < work.size(); i++)
			if ((i % 2 == 0) == (p == 0)) half.push_back(std::move(work[i]));
		work = std::move(half);
		if (p == 0) { asWorker(id); all.clear(); }
		else kids.push_back(p);
	};
	auto loop = [&](bool wide, size_t until) {
		while (!work.empty() && work.size() < until) {
			if (sh && work.size() > 1 && sh->idle.load() > 0) donate();
			size_t idx = wide ? 0 : work.size() - 1;
			StateP s = std::move(work[idx]);
			work.erase(work.begin() + idx);
			u64 n = 0;
			while (!s->dead) {
				step(*s);
				if ((++n & 1023) == 0) {
					if (stopping || now() - T0 > limit) break;
				}
				if (wide && work.size() >= until) { work.push_back(std::move(s)); return; }
				if (s->steps > maxSteps) {
					report(*s, "steps", "path longer than the step bound", nullptr);
					giveUp("path longer than the step bound");
					break;
				}
			}
			if (stopping || now() - T0 > limit) { giveUp("time limit"); return; }
			if (killAfterErrors || errors.size() >= maxErrors) { giveUp("stopped after errors"); return; }
		}
	};
	auto wait = [&]() {
		for (auto p : kids) {
			int st = 0;
			while (waitpid(p, &st, 0) < 0 && stopping) kill(p, SIGTERM);
			if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) giveUp("worker ended early");
		}
	};
	if (jobs > 1) {
		loop(true, (size_t)jobs * 8);
		if (!work.empty() && !incomplete) {
			sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			new (sh) Shared();
			sh->id = jobs;
			all = std::move(work);
			work.clear();
			for (int k = 0; k < jobs; k++) {
				pid_t p = fork();
				if (p == 0) {
					asWorker(k);
					blaster.reset();
					for (unsigned i; !incomplete && (i = sh->next++) < all.size();) {
						work.push_back(std::move(all[i]));
						loop(false, (size_t)-1);
					}
					sh->idle++;
					wait();
					writeOut();
					_Exit(0);
				}
				kids.push_back(p);
			}
			all.clear();
			wait();
		}
	}
	else loop(bfs, (size_t)-1);
	writeOut();
	_Exit(0);
}
