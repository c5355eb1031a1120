// symex: symbolic execution of LLVM 18 bitcode. Every branch, memory access
// and check is decided by Z3 over all values of the symbolic inputs; all
// feasible paths are explored (depth first) or the run is reported as
// incomplete (exit 2). See /verif/DESIGN.md.
#include "expr.h"

#include <llvm/ADT/StringExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options
static std::string optBc, optEntry, optOut, optTraces, optDump, optRepo = "/repo";
static double optTimeout = 600;
static unsigned optQueryMs = 30000;
static u64 optSeed = 1;
static size_t optMaxTraces = 64;
static u64 optMaxInsts = 100000000, maxInsts = 0;
static std::map<std::string, u64> optParams;
static size_t optMaxViol = 6;

// ---------------------------------------------------------------- stats
static u64 nQueries, nSat, nUnsat, nUnknown, nCacheHits, nModelHits, nFolded;
static double solverTime;
static double slowest;
static u64 nInsts, nPaths, nRejected, nForks, nBlocks, nStates = 1, nInfeasible;
static u64 nChecks, nChecksTrivial;
static u64 nLoads, nStores, nSymAccess;
static std::vector<std::string> incomplete; // reasons
static std::map<std::string, u64> reached;
static std::map<std::string, u64> checkLabels;
static std::map<std::string, u64> externsUsed;
static double t0;

// ---------------------------------------------------------------- refs
template<typename T> struct Ref
{
	T* p = nullptr;
	Ref() = default;
	explicit Ref(T* x) : p(x) { if(p) p->rc++; }
	Ref(const Ref& o) : p(o.p) { if(p) p->rc++; }
	Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
	Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
	~Ref() { if(p && --p->rc == 0) delete p; }
	T* operator->() const { return p; }
	T& operator*() const { return *p; }
	explicit operator bool() const { return p; }
	T& own() // copy on write
	{
		if(p->rc > 1)
		{
			T* n = new T(*p);
			n->rc = 0;
			*this = Ref(n);
		}
		return *p;
	}
};

struct Val
{
	E e = nullptr;
	const std::vector<Val>* agg = nullptr;
};

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { O_Global, O_Stack, O_Heap, O_Func };

struct Obj
{
	int rc = 0;
	uint32_t size = 0;
	ObjKind kind = O_Heap;
	bool ro = false;
	std::vector<uint8_t> d;
	std::vector<E> s; // empty: all concrete
};

static const unsigned ADDR_SHIFT = 24;
static inline u64 baseOf(u64 id) { return (id + 1) << ADDR_SHIFT; }
static inline bool split(u64 addr, u64& id, u64& off)
{
	id = addr >> ADDR_SHIFT;
	if(id == 0) return false;
	id--;
	off = addr & ((1ull << ADDR_SHIFT) - 1);
	return true;
}

struct Chunk
{
	int rc = 0;
	std::array<Ref<Obj>, 64> o;
};

struct ObjTab
{
	std::vector<Ref<Chunk>> ch;
	u64 n = 0;
	Obj* get(u64 id) const
	{
		if(id >= n) return nullptr;
		return ch[id >> 6]->o[id & 63].p;
	}
	Obj& own(u64 id)
	{
		Chunk& c = ch[id >> 6].own();
		return c.o[id & 63].own();
	}
	u64 put(Obj* o)
	{
		if((n & 63) == 0) ch.push_back(Ref<Chunk>(new Chunk));
		Chunk& c = ch[n >> 6].own();
		c.o[n & 63] = Ref<Obj>(o);
		return n++;
	}
	void kill(u64 id)
	{
		Chunk& c = ch[id >> 6].own();
		c.o[id & 63] = Ref<Obj>();
	}
};

// ---------------------------------------------------------------- code
struct Operand
{
	int reg = -1;
	const Val* cv = nullptr;
	Constant* dyn = nullptr; // contains undef: evaluate each time
};

struct KFunc;
struct KInst
{
	Instruction* I;
	unsigned op;
	int dst = -1;
	unsigned w = 0;
	mutable bool visited = false;
	std::vector<Operand> ops;
	// br/switch: successor block indices
	std::vector<unsigned> succ;
	std::vector<u64> caseVals;
	// gep
	int64_t gepConst = 0;
	std::vector<std::pair<unsigned, u64>> gepVar; // operand idx, stride
	Function* callee = nullptr;
	int handler = -1;
	Type* ty = nullptr;
	unsigned tySize = 0;
};

struct KBlock
{
	unsigned first;  // first instruction index
	unsigned nphi;
	BasicBlock* bb;
	mutable bool visited = false;
};

struct KFunc
{
	Function* F;
	unsigned nregs = 0;
	std::vector<KInst> insts;
	std::vector<KBlock> blocks;
	std::vector<int> instBlock;
	mutable bool entered = false;
};

struct Frame
{
	int rc = 0;
	KFunc* f = nullptr;
	std::vector<Val> regs;
	unsigned pc = 0;
	unsigned block = 0;
	std::vector<u64> allocas;
};

struct InputRec
{
	E e;
	unsigned w;
};

struct Bind
{
	std::unordered_map<uint32_t, u64> v;
	std::unordered_map<E, E> memo;
};

struct State
{
	std::vector<Ref<Frame>> stack;
	ObjTab mem;
	std::vector<E> pc;
	std::unordered_set<E> pcset;
	std::shared_ptr<Model> model;
	std::vector<std::pair<E, E>> conc; // concretised expressions
	std::shared_ptr<Bind> bind;        // symbols with one value left
	std::vector<InputRec> inputs;
	std::vector<std::pair<std::string, E>> obs;
	bool allowAbort = false;
	u64 insts = 0;
	bool dead = false;
	E lookupConc(E e) const
	{
		for(auto& p : conc)
			if(p.first == e) return p.second;
		return nullptr;
	}
};

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static Z3Tr* Z;
static Z3_solver solver;
static std::unordered_map<const GlobalValue*, u64> globalAddr;
static std::unordered_map<u64, Function*> funcById;
static std::unordered_map<Function*, KFunc*> kfuncs;
static std::vector<State*> work;
static std::mt19937_64 rng;

struct Violation
{
	std::string kind, msg, where;
	std::vector<std::pair<unsigned, u64>> inputs;
	std::vector<std::string> names;
};
static std::vector<Violation> violations;

[[noreturn]] static void fatal(const std::string& s)
{
	fprintf(stderr, "symex: %s\n", s.c_str());
	exit(2);
}

static unsigned widthOf(Type* t)
{
	if(t->isIntegerTy()) return t->getIntegerBitWidth();
	if(t->isPointerTy()) return 64;
	if(t->isFloatTy()) return 32;
	if(t->isDoubleTy()) return 64;
	if(t->isX86_FP80Ty()) return 80;
	std::string s;
	raw_string_ostream os(s);
	t->print(os);
	fatal("unsupported type " + os.str());
}

// ---------------------------------------------------------------- solver
struct VecHash
{
	size_t operator()(const std::vector<uint32_t>& v) const
	{
		u64 h = 1469598103934665603ull;
		for(auto x : v) h = (h ^ x) * 1099511628211ull;
		return h;
	}
};
struct CacheEnt
{
	int r;
	std::vector<std::pair<uint32_t, u64>> model;
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;
static std::deque<std::shared_ptr<Model>> recentModels;

static void dumpQuery(const std::vector<E>& cs, int r)
{
	static int n = 0;
	if(optDump.empty() || n >= 400) return;
	static u64 seen = 0;
	seen++;
	if(seen > 200 && (rng() % 64)) return;
	Z3_solver s = Z3_mk_simple_solver(Z->ctx);
	Z3_solver_inc_ref(Z->ctx, s);
	for(E c : cs) Z3_solver_assert(Z->ctx, s, Z->bl(c));
	std::ofstream f(optDump + "/q" + std::to_string(n++) + (r ? ".sat" : ".unsat") + ".smt2");
	f << "(set-logic QF_BV)\n" << Z3_solver_to_string(Z->ctx, s) << "(check-sat)\n";
	Z3_solver_dec_ref(Z->ctx, s);
}

// e with the bound symbols replaced by their values.
static E subst(Bind& b, E e)
{
	if(e->k == K_Const || e->k == K_Uninit) return e;
	if(e->k == K_Sym)
	{
		auto it = b.v.find(e->aux);
		return it == b.v.end() ? e : ex::c(e->w, it->second);
	}
	auto it = b.memo.find(e);
	if(it != b.memo.end()) return it->second;
	bool any = false;
	for(auto x : ex::syms(e)->v)
		if(b.v.count(x)) { any = true; break; }
	E r = e;
	if(any)
	{
		E a = e->a ? subst(b, e->a) : nullptr;
		E c2 = e->b ? subst(b, e->b) : nullptr;
		E c3 = e->c ? subst(b, e->c) : nullptr;
		r = ex::rebuild(e, a, c2, c3);
	}
	b.memo[e] = r;
	return r;
}
static inline E simp(State& s, E e)
{
	if(!s.bind || e->isC()) return e;
	return subst(*s.bind, e);
}

// Is pc(s) && q satisfiable?  1 yes (m set), 0 no, -1 unknown.
static int query(State& s, E q, std::shared_ptr<Model>* m)
{
	q = simp(s, q);
	if(q->isC())
	{
		if(q->val && m) *m = s.model;
		return q->val ? 1 : 0;
	}
	if(s.model->eval(q) == 1)
	{
		nModelHits++;
		if(m) *m = s.model;
		return 1;
	}
	if(s.pcset.count(ex::not_(q)))
	{
		nFolded++;
		return 0;
	}
	// slice
	std::vector<E> rel{q};
	std::set<uint32_t> vars(ex::syms(q)->v.begin(), ex::syms(q)->v.end());
	std::vector<char> taken(s.pc.size(), 0);
	bool changed = true;
	while(changed)
	{
		changed = false;
		for(size_t i = 0; i < s.pc.size(); i++)
		{
			if(taken[i]) continue;
			const auto& v = ex::syms(s.pc[i])->v;
			bool hit = false;
			for(auto x : v)
				if(vars.count(x)) { hit = true; break; }
			if(!hit) continue;
			taken[i] = 1;
			changed = true;
			rel.push_back(s.pc[i]);
			vars.insert(v.begin(), v.end());
		}
	}
	std::vector<uint32_t> key;
	for(E c : rel) key.push_back(c->id);
	std::sort(key.begin(), key.end());
	auto mkModel = [&](const std::vector<std::pair<uint32_t, u64>>& vals)
	{
		if(!m) return;
		auto n = std::make_shared<Model>();
		n->v = s.model->v;
		for(auto& p : vals) n->v[p.first] = p.second;
		*m = n;
	};
	auto it = qcache.find(key);
	if(it != qcache.end())
	{
		nCacheHits++;
		if(it->second.r == 1) mkModel(it->second.model);
		return it->second.r;
	}
	CacheEnt ent;
	// counterexample cache
	for(auto& rm : recentModels)
	{
		bool ok = true;
		for(E c : rel)
			if(rm->eval(c) != 1) { ok = false; break; }
		if(ok)
		{
			nModelHits++;
			ent.r = 1;
			for(auto x : vars) ent.model.push_back({x, rm->get(x)});
			mkModel(ent.model);
			qcache[key] = ent;
			return 1;
		}
	}
	double t = now();
	Z3_solver_reset(Z->ctx, solver);
	for(E c : rel) Z3_solver_assert(Z->ctx, solver, Z->bl(c));
	Z3_lbool r = Z3_solver_check(Z->ctx, solver);
	nQueries++;
	if(r == Z3_L_TRUE)
	{
		nSat++;
		ent.r = 1;
		Z3_model zm = Z3_solver_get_model(Z->ctx, solver);
		Z3_model_inc_ref(Z->ctx, zm);
		for(auto x : vars)
		{
			Z3_ast out;
			if(!Z3_model_eval(Z->ctx, zm, Z->bv(ex::symtab[x].e), true, &out))
				fatal("model eval");
			Z3_inc_ref(Z->ctx, out);
			u64 v = 0;
			if(!Z3_get_numeral_uint64(Z->ctx, out, &v)) fatal("numeral");
			Z3_dec_ref(Z->ctx, out);
			ent.model.push_back({x, v});
		}
		Z3_model_dec_ref(Z->ctx, zm);
		// Cross-check of the whole chain: our evaluator must agree.
		auto chk = std::make_shared<Model>();
		for(auto& p : ent.model) chk->v[p.first] = p.second;
		for(E c : rel)
			if(chk->eval(c) != 1) fatal("solver model disagrees with evaluator");
		recentModels.push_front(chk);
		if(recentModels.size() > 12) recentModels.pop_back();
		mkModel(ent.model);
		qcache[key] = ent;
	}
	else if(r == Z3_L_FALSE)
	{
		nUnsat++;
		ent.r = 0;
		qcache[key] = ent;
	}
	else
	{
		nUnknown++;
		ent.r = -1;
		incomplete.push_back("solver gave no answer (timeout)");
	}
	double d = now() - t;
	solverTime += d;
	slowest = std::max(slowest, d);
	if(ent.r >= 0) dumpQuery(rel, ent.r);
	return ent.r;
}

// Does c say that a symbol has one value?
static bool defines(E c, E& sym, u64& val)
{
	sym = nullptr;
	if(c->k == K_Eq && c->a->k == K_Sym && c->b->isC()) sym = c->a, val = c->b->val;
	else if(c->k == K_Eq && c->b->k == K_Sym && c->a->isC()) sym = c->b, val = c->a->val;
	else if(c->k == K_Sym) sym = c, val = 1;
	else if(c->w == 1 && c->k == K_Xor && c->a->k == K_Sym && c->b->isC()) sym = c->a, val = c->b->val ^ 1;
	return sym && sym->w <= 64;
}

static void addConstraint(State& s, E c)
{
	c = simp(s, c);
	if(c->isC())
	{
		if(!c->val) s.dead = true;
		return;
	}
	if(c->k == K_And && c->w == 1)
	{
		addConstraint(s, c->a);
		addConstraint(s, c->b);
		return;
	}
	if(!s.pcset.insert(c).second) return;
	s.pc.push_back(c);
	// A symbol that is now a constant is replaced everywhere; its defining
	// equality stays in the path condition.
	E sym;
	u64 val;
	if(!defines(c, sym, val)) return;
	auto isDef = [](E o) { E x; u64 v; return defines(o, x, v); };
	auto nb = std::make_shared<Bind>();
	if(s.bind) nb->v = s.bind->v;
	nb->v[sym->aux] = val;
	s.bind = nb;
	std::vector<E> old;
	old.swap(s.pc);
	s.pcset.clear();
	for(E o : old)
	{
		E n = isDef(o) ? o : subst(*s.bind, o);
		if(n == o)
		{
			if(s.pcset.insert(o).second) s.pc.push_back(o);
			continue;
		}
		addConstraint(s, n);
		if(s.dead) return;
	}
}

// ---------------------------------------------------------------- reports
static std::string locStr(const DebugLoc& dl)
{
	if(!dl) return "";
	std::string r;
	const DILocation* l = dl.get();
	for(int i = 0; l && i < 6; l = l->getInlinedAt(), i++)
	{
		if(!r.empty()) r += " < ";
		r += l->getFilename().str() + ":" + std::to_string(l->getLine());
		if(auto* sp = l->getScope()->getSubprogram())
			r += " (" + sp->getName().str() + ")";
	}
	return r;
}

static std::string backtrace(State& s)
{
	std::string r;
	int n = 0;
	for(size_t i = s.stack.size(); i-- > 0 && n < 14; n++)
	{
		auto& fr = *s.stack[i];
		unsigned pc = fr.pc ? fr.pc - 1 : 0;
		std::string l = locStr(fr.f->insts[pc].I->getDebugLoc());
		if(l.empty()) l = demangle(fr.f->F->getName().str());
		if(!r.empty()) r += " | ";
		r += l;
	}
	return r;
}

static void report(State& s, const std::string& kind, const std::string& msg,
                   std::shared_ptr<Model> m)
{
	for(auto& v : violations)
		if(v.kind == kind && v.msg == msg) return;
	Violation v;
	v.kind = kind;
	v.msg = msg;
	v.where = backtrace(s);
	for(auto& in : s.inputs)
	{
		v.inputs.push_back({in.w, m->eval(in.e)});
		v.names.push_back(in.e->k == K_Sym ? ex::symtab[in.e->aux].name : "choice");
	}
	violations.push_back(v);
}

static void endPath(State& s) { s.dead = true; }

// The path dies here whatever the inputs (already on the failing branch).
static void failHere(State& s, const std::string& kind, const std::string& msg)
{
	report(s, kind, msg, s.model);
	endPath(s);
}

// Require cond; report if it can be false; continue under cond.
static bool require(State& s, E cond, const std::string& kind, const std::string& msg)
{
	cond = simp(s, cond);
	if(cond->isC() && cond->val) return true;
	std::shared_ptr<Model> m;
	int r = query(s, ex::not_(cond), &m);
	if(r == 0) return true;
	if(r < 0) return true; // recorded as incomplete
	report(s, kind, msg, m);
	int r2 = query(s, cond, &m);
	if(r2 != 1)
	{
		endPath(s);
		return false;
	}
	addConstraint(s, cond);
	s.model = m;
	return true;
}

struct Trace
{
	std::vector<std::pair<unsigned, u64>> in;
	std::vector<std::pair<std::string, u64>> obs;
	bool rejected;
};
static std::vector<Trace> traces;
static u64 traceSeen;

static void finishPath(State& s, bool rejected)
{
	s.dead = true;
	nPaths++;
	if(rejected) nRejected++;
	traceSeen++;
	size_t slot;
	if(traces.size() < optMaxTraces)
	{
		slot = traces.size();
		traces.push_back({});
	}
	else
	{
		slot = rng() % traceSeen;
		if(slot >= optMaxTraces) return;
	}
	Trace t;
	t.rejected = rejected;
	for(auto& in : s.inputs) t.in.push_back({in.w, s.model->eval(in.e)});
	for(auto& o : s.obs) t.obs.push_back({o.first, s.model->eval(o.second)});
	traces[slot] = t;
}

// ---------------------------------------------------------------- memory ops
static u64 allocObj(State& s, u64 size, ObjKind k, bool uninit)
{
	if(size >= (1u << ADDR_SHIFT)) fatal("allocation too large: " + std::to_string(size));
	Obj* o = new Obj;
	o->size = size;
	o->kind = k;
	o->d.resize(size);
	if(uninit) o->s.assign(size, ex::UNINIT);
	return s.mem.put(o);
}

static E loadByte(State& s, u64 id, u64 off)
{
	Obj* o = s.mem.get(id);
	if(o->s.empty() || !o->s[off]) return ex::c(8, o->d[off]);
	if(o->s[off] == ex::UNINIT)
	{
		static u64 n = 0;
		E f = ex::sym("uninit" + std::to_string(n++), 8, false);
		Obj& w = s.mem.own(id);
		w.s[off] = f;
		return f;
	}
	return o->s[off];
}

static E loadAt(State& s, u64 id, u64 off, unsigned bytes)
{
	Obj* o = s.mem.get(id);
	bool conc = true;
	if(!o->s.empty())
		for(unsigned i = 0; i < bytes; i++)
			if(o->s[off + i]) { conc = false; break; }
	if(conc)
	{
		if(bytes <= 8)
		{
			u64 v = 0;
			memcpy(&v, &o->d[off], bytes);
			return ex::c(bytes * 8, v);
		}
		APInt v(bytes * 8, 0);
		for(unsigned i = 0; i < bytes; i++)
			v |= APInt(bytes * 8, o->d[off + i]).shl(8 * i);
		return ex::cw(v);
	}
	E r = loadByte(s, id, off + bytes - 1);
	for(int i = (int)bytes - 2; i >= 0; i--)
		r = ex::concat(r, loadByte(s, id, off + i));
	return r;
}

static void storeAt(State& s, u64 id, u64 off, E v, E cond)
{
	Obj& o = s.mem.own(id);
	unsigned bytes = v->w / 8;
	if(v->isC() && !cond)
	{
		if(v->w <= 64)
			memcpy(&o.d[off], &v->val, bytes);
		else
			for(unsigned i = 0; i < bytes; i++)
				o.d[off + i] = v->wide->extractBits(8, 8 * i).getZExtValue();
		if(!o.s.empty())
			for(unsigned i = 0; i < bytes; i++) o.s[off + i] = nullptr;
		return;
	}
	if(o.s.empty()) o.s.assign(o.size, nullptr);
	for(unsigned i = 0; i < bytes; i++)
	{
		E b = ex::extract(v, 8 * i, 8);
		if(cond)
		{
			E old = loadByte(s, id, off + i);
			b = ex::ite(cond, b, old);
		}
		Obj& w = s.mem.own(id);
		if(b->isC())
		{
			w.d[off + i] = b->val;
			w.s[off + i] = nullptr;
		}
		else
			w.s[off + i] = b;
	}
}

static bool validAcc(State& s, u64 addr, u64 n, bool write, u64& id, u64& off)
{
	if(!split(addr, id, off)) return false;
	Obj* o = s.mem.get(id);
	if(!o || o->kind == O_Func) return false;
	if(off + n > o->size) return false;
	if(write && o->ro) return false;
	return true;
}

static std::string describeAddr(State& s, u64 addr)
{
	u64 id, off;
	if(!split(addr, id, off)) return "null page";
	Obj* o = s.mem.get(id);
	if(!o) return id < s.mem.n ? "dead object" : "wild address";
	static const char* kn[] = {"global", "stack", "heap", "function"};
	return std::string("out of bounds of a ") + kn[o->kind] + " object";
}

static unsigned knownTZ(E e)
{
	switch(e->k)
	{
	case K_Const: return e->val ? __builtin_ctzll(e->val) : e->w;
	case K_Concat:
	{
		unsigned t = knownTZ(e->b);
		return t == e->b->w ? t + knownTZ(e->a) : t;
	}
	case K_ZExt:
	{
		unsigned t = knownTZ(e->a);
		return t == e->a->w ? e->w : t;
	}
	case K_SExt: return knownTZ(e->a);
	case K_Add: case K_Sub: return std::min(knownTZ(e->a), knownTZ(e->b));
	case K_Mul: return std::min<unsigned>(e->w, knownTZ(e->a) + knownTZ(e->b));
	case K_Ite: return std::min(knownTZ(e->b), knownTZ(e->c));
	default: return 0;
	}
}

static bool leafSet(E e, std::set<u64>& out)
{
	if(out.size() > 64) return false;
	if(e->isC())
	{
		out.insert(e->val);
		return true;
	}
	if(e->k == K_Ite) return leafSet(e->b, out) && leafSet(e->c, out);
	if(e->k == K_Add && e->b->isC())
	{
		std::set<u64> t;
		if(!leafSet(e->a, t)) return false;
		for(u64 v : t) out.insert((v + e->b->val) & maskw(e->w));
		return out.size() <= 64;
	}
	return false;
}

// All feasible values of e (<= limit). False: too many / unknown.
static bool enumerate(State& s, E e, std::vector<u64>& vals, unsigned limit)
{
	E block = ex::T;
	std::shared_ptr<Model> m = s.model;
	for(;;)
	{
		u64 v = m->eval(e);
		vals.push_back(v);
		if(vals.size() > limit) return false;
		block = ex::and_(block, ex::ne(e, ex::c(e->w, v)));
		int r = query(s, block, &m);
		if(r == 0) return true;
		if(r < 0) return false;
	}
}

struct Acc
{
	u64 id, off;
	E cond; // null: unconditional
};

static bool resolve(State& s, E addr, u64 n, bool write, std::vector<Acc>& out)
{
	Acc a;
	addr = simp(s, addr);
	if(!addr->isC())
		if(E c = s.lookupConc(addr)) addr = c;
	if(addr->isC())
	{
		if(validAcc(s, addr->val, n, write, a.id, a.off))
		{
			a.cond = nullptr;
			out.push_back(a);
			return true;
		}
		failHere(s, "memory", std::string(write ? "invalid write: " : "invalid read: ") +
		                          describeAddr(s, addr->val));
		return false;
	}
	nSymAccess++;
	std::set<u64> leaves;
	std::vector<u64> vals;
	if(leafSet(addr, leaves) && leaves.size() <= 64)
	{
		for(u64 v : leaves)
		{
			u64 id, off;
			if(validAcc(s, v, n, write, id, off))
			{
				vals.push_back(v);
				continue;
			}
			E hit = ex::eq(addr, ex::c(64, v));
			if(!require(s, ex::not_(hit), "memory",
			            std::string(write ? "invalid write: " : "invalid read: ") +
			                describeAddr(s, v)))
				return false;
		}
	}
	else
	{
		// Bulk: everything inside the object the current model points at?
		u64 v = s.model->eval(addr);
		u64 id, off;
		bool bulk = false;
		if(validAcc(s, v, n, write, id, off))
		{
			Obj* o = s.mem.get(id);
			unsigned tz = 0;
			// offset relative to the base (base has >=24 trailing zeros)
			tz = knownTZ(addr);
			u64 residue = 0;
			if(addr->k == K_Add && addr->b->isC())
			{
				tz = knownTZ(addr->a);
				if(tz > 20) tz = 20;
				residue = addr->b->val & ((1ull << tz) - 1);
			}
			if(tz > 20) tz = 20;
			u64 stride = 1ull << tz;
			u64 first = residue;
			u64 last = o->size - n;
			u64 cnt = last >= first ? (last - first) / stride + 1 : 0;
			if(cnt <= 96)
			{
				E in = ex::ule(ex::sub(addr, ex::c(64, baseOf(id))), ex::c(64, last));
				int r = query(s, ex::not_(in), nullptr);
				if(r == 0)
				{
					bulk = true;
					for(u64 k = 0; k < cnt; k++)
						vals.push_back(baseOf(id) + first + k * stride);
				}
				else if(r < 0)
				{
					endPath(s);
					return false;
				}
			}
		}
		if(!bulk)
		{
			// enumerate, discarding (and reporting) invalid addresses
			std::shared_ptr<Model> m = s.model;
			E block = ex::T;
			for(;;)
			{
				u64 v2 = m->eval(addr);
				if(validAcc(s, v2, n, write, id, off))
				{
					vals.push_back(v2);
					block = ex::and_(block, ex::ne(addr, ex::c(64, v2)));
					if(vals.size() > 300)
					{
						incomplete.push_back("symbolic address with too many targets at " +
						                     backtrace(s));
						endPath(s);
						return false;
					}
				}
				else
				{
					report(s, "memory",
					       std::string(write ? "invalid write: " : "invalid read: ") +
					           describeAddr(s, v2),
					       m);
					endPath(s);
					return false;
				}
				int r = query(s, block, &m);
				if(r == 0) break;
				if(r < 0)
				{
					endPath(s);
					return false;
				}
			}
		}
	}
	for(u64 v : vals)
	{
		u64 id, off;
		if(!validAcc(s, v, n, write, id, off)) continue;
		out.push_back({id, off, ex::eq(addr, ex::c(64, v))});
	}
	if(out.empty())
	{
		endPath(s);
		return false;
	}
	if(out.size() == 1) out[0].cond = nullptr;
	return true;
}

static E loadMem(State& s, E addr, unsigned bytes)
{
	std::vector<Acc> a;
	nLoads++;
	if(!resolve(s, addr, bytes, false, a)) return nullptr;
	E r = loadAt(s, a.back().id, a.back().off, bytes);
	for(size_t i = a.size() - 1; i-- > 0;)
		r = ex::ite(a[i].cond, loadAt(s, a[i].id, a[i].off, bytes), r);
	return r;
}

static bool storeMem(State& s, E addr, E v)
{
	std::vector<Acc> a;
	nStores++;
	if(!resolve(s, addr, v->w / 8, true, a)) return false;
	for(auto& x : a) storeAt(s, x.id, x.off, v, x.cond);
	return true;
}

// typed access
static Val loadTyped(State& s, E addr, Type* t)
{
	if(t->isStructTy())
	{
		auto* st = cast<StructType>(t);
		auto* sl = DL->getStructLayout(st);
		auto* v = new std::vector<Val>;
		for(unsigned i = 0; i < st->getNumElements(); i++)
		{
			Val x = loadTyped(s, ex::add(addr, ex::c(64, sl->getElementOffset(i))),
			                  st->getElementType(i));
			if(s.dead) return {};
			v->push_back(x);
		}
		return Val{nullptr, v};
	}
	if(t->isArrayTy() || t->isVectorTy())
	{
		u64 n = t->isArrayTy() ? t->getArrayNumElements()
		                       : cast<FixedVectorType>(t)->getNumElements();
		Type* et = t->isArrayTy() ? t->getArrayElementType()
		                          : cast<VectorType>(t)->getElementType();
		u64 sz = DL->getTypeAllocSize(et);
		auto* v = new std::vector<Val>;
		for(u64 i = 0; i < n; i++)
		{
			Val x = loadTyped(s, ex::add(addr, ex::c(64, i * sz)), et);
			if(s.dead) return {};
			v->push_back(x);
		}
		return Val{nullptr, v};
	}
	unsigned w = widthOf(t);
	unsigned bytes = (w + 7) / 8;
	E e = loadMem(s, addr, bytes);
	if(!e) return {};
	if(e->w != w) e = ex::extract(e, 0, w);
	return Val{e};
}

static bool storeTyped(State& s, E addr, const Val& v, Type* t)
{
	if(t->isStructTy())
	{
		auto* st = cast<StructType>(t);
		auto* sl = DL->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); i++)
			if(!storeTyped(s, ex::add(addr, ex::c(64, sl->getElementOffset(i))),
			               (*v.agg)[i], st->getElementType(i)))
				return false;
		return true;
	}
	if(t->isArrayTy() || t->isVectorTy())
	{
		u64 n = t->isArrayTy() ? t->getArrayNumElements()
		                       : cast<FixedVectorType>(t)->getNumElements();
		Type* et = t->isArrayTy() ? t->getArrayElementType()
		                          : cast<VectorType>(t)->getElementType();
		u64 sz = DL->getTypeAllocSize(et);
		for(u64 i = 0; i < n; i++)
			if(!storeTyped(s, ex::add(addr, ex::c(64, i * sz)), (*v.agg)[i], et))
				return false;
		return true;
	}
	E e = v.e;
	unsigned bytes = (e->w + 7) / 8;
	if(e->w != bytes * 8) e = ex::zext(e, bytes * 8);
	return storeMem(s, addr, e);
}

// ---------------------------------------------------------------- constants
static E freshUndef(unsigned w)
{
	static u64 n = 0;
	E r = nullptr;
	while(w)
	{
		unsigned k = std::min(w, 64u);
		E f = ex::sym("undef" + std::to_string(n++), k, false);
		r = r ? ex::concat(r, f) : f;
		w -= k;
	}
	return r;
}

static Val constVal(Constant* c, bool& undef);

static Val undefVal(Type* t)
{
	if(t->isStructTy() || t->isArrayTy() || t->isVectorTy())
	{
		auto* v = new std::vector<Val>;
		u64 n = t->isStructTy()  ? t->getStructNumElements()
		        : t->isArrayTy() ? t->getArrayNumElements()
		                         : cast<FixedVectorType>(t)->getNumElements();
		for(u64 i = 0; i < n; i++)
			v->push_back(undefVal(t->isStructTy()  ? t->getStructElementType(i)
			                      : t->isArrayTy() ? t->getArrayElementType()
			                                       : cast<VectorType>(t)->getElementType()));
		return Val{nullptr, v};
	}
	return Val{freshUndef(widthOf(t))};
}

static Val zeroVal(Type* t)
{
	if(t->isStructTy() || t->isArrayTy() || t->isVectorTy())
	{
		auto* v = new std::vector<Val>;
		u64 n = t->isStructTy()  ? t->getStructNumElements()
		        : t->isArrayTy() ? t->getArrayNumElements()
		                         : cast<FixedVectorType>(t)->getNumElements();
		for(u64 i = 0; i < n; i++)
			v->push_back(zeroVal(t->isStructTy()  ? t->getStructElementType(i)
			                     : t->isArrayTy() ? t->getArrayElementType()
			                                      : cast<VectorType>(t)->getElementType()));
		return Val{nullptr, v};
	}
	return Val{ex::c(widthOf(t), 0)};
}

static E constE(Constant* c)
{
	bool u = false;
	Val v = constVal(c, u);
	return v.e;
}

static Val constVal(Constant* c, bool& undef)
{
	if(isa<UndefValue>(c)) // includes poison
	{
		undef = true;
		return undefVal(c->getType());
	}
	if(auto* ci = dyn_cast<ConstantInt>(c)) return Val{ex::cw(ci->getValue())};
	if(isa<ConstantPointerNull>(c)) return Val{ex::c(64, 0)};
	if(auto* cf = dyn_cast<ConstantFP>(c))
		return Val{ex::cw(cf->getValueAPF().bitcastToAPInt())};
	if(isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
	if(auto* gv = dyn_cast<GlobalValue>(c))
	{
		if(auto* ga = dyn_cast<GlobalAlias>(gv))
			return constVal(ga->getAliasee(), undef);
		auto it = globalAddr.find(gv);
		if(it == globalAddr.end()) fatal("no address for " + gv->getName().str());
		return Val{ex::c(64, it->second)};
	}
	if(auto* cd = dyn_cast<ConstantDataSequential>(c))
	{
		auto* v = new std::vector<Val>;
		for(unsigned i = 0; i < cd->getNumElements(); i++)
			v->push_back(constVal(cd->getElementAsConstant(i), undef));
		return Val{nullptr, v};
	}
	if(auto* ca = dyn_cast<ConstantAggregate>(c))
	{
		auto* v = new std::vector<Val>;
		for(unsigned i = 0; i < ca->getNumOperands(); i++)
			v->push_back(constVal(ca->getOperand(i), undef));
		return Val{nullptr, v};
	}
	if(auto* ce = dyn_cast<ConstantExpr>(c))
	{
		switch(ce->getOpcode())
		{
		case Instruction::GetElementPtr:
		{
			APInt off(64, 0);
			auto* g = cast<GEPOperator>(ce);
			if(!g->accumulateConstantOffset(*DL, off)) fatal("gep constant");
			return Val{ex::add(constE(ce->getOperand(0)), ex::cw(off))};
		}
		case Instruction::PtrToInt:
		case Instruction::IntToPtr:
		case Instruction::BitCast:
		{
			E e = constE(ce->getOperand(0));
			unsigned w = widthOf(ce->getType());
			if(e->w > w) e = ex::extract(e, 0, w);
			else if(e->w < w) e = ex::zext(e, w);
			return Val{e};
		}
		case Instruction::Trunc:
			return Val{ex::extract(constE(ce->getOperand(0)), 0, widthOf(ce->getType()))};
		case Instruction::Add:
			return Val{ex::add(constE(ce->getOperand(0)), constE(ce->getOperand(1)))};
		case Instruction::Sub:
			return Val{ex::sub(constE(ce->getOperand(0)), constE(ce->getOperand(1)))};
		case Instruction::ICmp:
		{
			E a = constE(ce->getOperand(0)), b = constE(ce->getOperand(1));
			if(ce->getPredicate() == CmpInst::ICMP_EQ) return Val{ex::eq(a, b)};
			if(ce->getPredicate() == CmpInst::ICMP_NE) return Val{ex::ne(a, b)};
			break;
		}
		default: break;
		}
	}
	std::string str;
	raw_string_ostream os(str);
	c->print(os);
	fatal("unsupported constant " + os.str());
}

// ---------------------------------------------------------------- decoding
enum Handler
{
	H_None, H_SymBits, H_SymChoice, H_Assume, H_Check, H_Reach, H_Concretize,
	H_Observe, H_AllowAbort, H_Param, H_IsEngine, H_New, H_Delete, H_Malloc,
	H_AssertFail, H_Abort, H_NopZero, H_Nop, H_Memcpy, H_Memset, H_UbTrap,
	H_Intrinsic, H_EndPath, H_Fill, H_Defined, H_Trap, H_SameObj
};

static int handlerFor(Function* f)
{
	StringRef n = f->getName();
	if(f->isIntrinsic())
	{
		switch(f->getIntrinsicID())
		{
		case Intrinsic::memcpy: case Intrinsic::memmove: return H_Memcpy;
		case Intrinsic::memset: return H_Memset;
		case Intrinsic::ubsantrap: case Intrinsic::trap: return H_UbTrap;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
		case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
		case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
		case Intrinsic::invariant_start:
		case Intrinsic::invariant_end: case Intrinsic::assume:
		case Intrinsic::experimental_noalias_scope_decl:
		case Intrinsic::donothing: case Intrinsic::prefetch:
		case Intrinsic::sideeffect:
			return H_Nop;
		default: return H_Intrinsic;
		}
	}
	static const std::map<std::string, int> tab = {
		{"sym_bits", H_SymBits}, {"sym_choice", H_SymChoice},
		{"sym_assume", H_Assume}, {"sym_check", H_Check},
		{"sym_reach", H_Reach}, {"sym_concretize", H_Concretize},
		{"sym_observe", H_Observe}, {"sym_allow_abort", H_AllowAbort},
		{"sym_param", H_Param}, {"sym_is_engine", H_IsEngine},
		{"sym_end_path", H_EndPath}, {"sym_fill", H_Fill},
		{"sym_same_object", H_SameObj},
		{"_Znwm", H_New}, {"_Znam", H_New}, {"_ZnwmSt11align_val_t", H_New},
		{"_ZnamSt11align_val_t", H_New},
		{"_ZnwmRKSt9nothrow_t", H_New}, {"malloc", H_Malloc},
		{"_ZdlPv", H_Delete}, {"_ZdaPv", H_Delete}, {"_ZdlPvm", H_Delete},
		{"_ZdaPvm", H_Delete}, {"_ZdlPvSt11align_val_t", H_Delete},
		{"_ZdlPvmSt11align_val_t", H_Delete}, {"_ZdlPvRKSt9nothrow_t", H_Delete},
		{"free", H_Delete},
		{"__assert_fail", H_AssertFail},
		{"_ZSt21__glibcxx_assert_failPKciS0_S0_", H_AssertFail},
		{"abort", H_Abort}, {"_ZSt9terminatev", H_Abort},
		{"__cxa_pure_virtual", H_Abort},
		{"__cxa_atexit", H_NopZero},
	};
	auto it = tab.find(n.str());
	if(it != tab.end()) return it->second;
	if(n.starts_with("_ZSt") && n.contains("__throw_")) return H_Abort;
	if(f->isDeclaration()) return H_Trap;
	return H_Defined;
}

static KFunc* getKF(Function* F)
{
	auto it = kfuncs.find(F);
	if(it != kfuncs.end()) return it->second;
	auto* kf = new KFunc;
	kfuncs[F] = kf;
	kf->F = F;
	std::unordered_map<const Value*, int> regs;
	std::unordered_map<const BasicBlock*, unsigned> bidx;
	for(auto& a : F->args()) regs[&a] = kf->nregs++;
	for(auto& bb : *F)
	{
		bidx[&bb] = bidx.size();
		for(auto& i : bb)
			if(!i.getType()->isVoidTy()) regs[&i] = kf->nregs++;
	}
	auto mkOp = [&](Value* v)
	{
		Operand o;
		auto r = regs.find(v);
		if(r != regs.end())
		{
			o.reg = r->second;
			return o;
		}
		if(auto* c = dyn_cast<Constant>(v))
		{
			bool u = false;
			Val x = constVal(c, u);
			if(u) o.dyn = c;
			else o.cv = new Val(x);
		}
		return o;
	};
	for(auto& bb : *F)
	{
		KBlock kb;
		kb.first = kf->insts.size();
		kb.bb = &bb;
		kb.nphi = 0;
		for(auto& i : bb)
		{
			if(isa<DbgInfoIntrinsic>(&i)) continue;
			KInst k;
			k.I = &i;
			k.op = i.getOpcode();
			if(!i.getType()->isVoidTy()) k.dst = regs[&i];
			k.ty = i.getType();
			if(k.ty->isIntegerTy() || k.ty->isPointerTy()) k.w = widthOf(k.ty);
			if(isa<PHINode>(&i))
			{
				kb.nphi++;
				auto* p = cast<PHINode>(&i);
				for(unsigned j = 0; j < p->getNumIncomingValues(); j++)
				{
					k.ops.push_back(mkOp(p->getIncomingValue(j)));
					k.succ.push_back(bidx[p->getIncomingBlock(j)]);
				}
			}
			else if(auto* br = dyn_cast<BranchInst>(&i))
			{
				if(br->isConditional()) k.ops.push_back(mkOp(br->getCondition()));
				for(unsigned j = 0; j < br->getNumSuccessors(); j++)
					k.succ.push_back(bidx[br->getSuccessor(j)]);
			}
			else if(auto* sw = dyn_cast<SwitchInst>(&i))
			{
				k.ops.push_back(mkOp(sw->getCondition()));
				k.succ.push_back(bidx[sw->getDefaultDest()]);
				for(auto& cs : sw->cases())
				{
					k.caseVals.push_back(cs.getCaseValue()->getZExtValue());
					k.succ.push_back(bidx[cs.getCaseSuccessor()]);
				}
			}
			else if(auto* gep = dyn_cast<GetElementPtrInst>(&i))
			{
				if(gep->getType()->isVectorTy()) fatal("vector gep");
				k.ops.push_back(mkOp(gep->getPointerOperand()));
				unsigned oi = 1;
				for(auto gi = gep_type_begin(gep); gi != gep_type_end(gep); ++gi, ++oi)
				{
					Value* idx = gi.getOperand();
					if(auto* st = gi.getStructTypeOrNull())
					{
						k.gepConst += DL->getStructLayout(st)->getElementOffset(
							cast<ConstantInt>(idx)->getZExtValue());
						continue;
					}
					u64 stride = DL->getTypeAllocSize(gi.getIndexedType());
					if(auto* ci = dyn_cast<ConstantInt>(idx))
						k.gepConst += ci->getSExtValue() * (int64_t)stride;
					else
					{
						k.gepVar.push_back({(unsigned)k.ops.size(), stride});
						k.ops.push_back(mkOp(idx));
					}
				}
			}
			else if(auto* cb = dyn_cast<CallBase>(&i))
			{
				for(auto& a : cb->args())
				{
					if(isa<MetadataAsValue>(a.get())) k.ops.push_back({});
					else k.ops.push_back(mkOp(a.get()));
				}
				Value* cv = cb->getCalledOperand()->stripPointerCasts();
				if(auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
				k.callee = dyn_cast<Function>(cv);
				if(k.callee) k.handler = handlerFor(k.callee);
				else k.ops.push_back(mkOp(cb->getCalledOperand()));
			}
			else
				for(auto& o : i.operands()) k.ops.push_back(mkOp(o.get()));
			kf->insts.push_back(std::move(k));
			kf->instBlock.push_back(kf->blocks.size());
		}
		kf->blocks.push_back(kb);
	}
	return kf;
}

// ---------------------------------------------------------------- execution
static inline Val opv(Frame& f, const Operand& o)
{
	if(o.reg >= 0) return f.regs[o.reg];
	if(o.cv) return *o.cv;
	if(o.dyn)
	{
		bool u = false;
		return constVal(o.dyn, u);
	}
	return {};
}

static State* fork(State& s)
{
	State* n = new State(s);
	nForks++;
	nStates++;
	return n;
}

static void gotoBlock(State& s, unsigned b)
{
	Frame& f = s.stack.back().own();
	unsigned prev = f.block;
	KFunc* kf = f.f;
	KBlock& kb = kf->blocks[b];
	kb.visited = true;
	nBlocks++;
	if(kb.nphi)
	{
		std::vector<Val> tmp(kb.nphi);
		for(unsigned i = 0; i < kb.nphi; i++)
		{
			KInst& k = kf->insts[kb.first + i];
			bool ok = false;
			for(unsigned j = 0; j < k.succ.size(); j++)
				if(k.succ[j] == prev)
				{
					tmp[i] = opv(f, k.ops[j]);
					ok = true;
					break;
				}
			if(!ok) fatal("phi without edge");
		}
		for(unsigned i = 0; i < kb.nphi; i++)
			f.regs[kf->insts[kb.first + i].dst] = tmp[i];
	}
	f.block = b;
	f.pc = kb.first + kb.nphi;
}

static void pushFrame(State& s, Function* F, const std::vector<Val>& args)
{
	KFunc* kf = getKF(F);
	kf->entered = true;
	Frame* f = new Frame;
	f->f = kf;
	f->regs.resize(kf->nregs);
	for(size_t i = 0; i < args.size() && i < F->arg_size(); i++) f->regs[i] = args[i];
	f->block = 0;
	f->pc = 0;
	kf->blocks[0].visited = true;
	s.stack.push_back(Ref<Frame>(f));
	if(s.stack.size() > 2000) fatal("stack overflow in " + F->getName().str());
}

// Make e concrete by forking over its feasible values. Returns the constant
// for this state; other values are queued at instruction pc `rewind`.
static E concretize(State& s, E e, unsigned limit = 300)
{
	e = simp(s, e);
	if(e->isC()) return e;
	if(E c = s.lookupConc(e)) return c;
	std::vector<u64> vals;
	if(!enumerate(s, e, vals, limit))
	{
		incomplete.push_back("too many values to concretise at " + backtrace(s));
		endPath(s);
		return nullptr;
	}
	for(size_t i = vals.size(); i-- > 1;)
	{
		E v = ex::c(e->w, vals[i]);
		E q = ex::eq(e, v);
		std::shared_ptr<Model> m;
		if(query(s, q, &m) != 1) { incomplete.push_back("concretise"); continue; }
		State* n = fork(s);
		n->model = m;
		addConstraint(*n, q);
		n->conc.push_back({e, v});
		n->stack.back().own().pc--; // re-execute
		work.push_back(n);
	}
	E v = ex::c(e->w, vals[0]);
	addConstraint(s, ex::eq(e, v));
	s.conc.push_back({e, v});
	return v;
}

static std::string cstr(State& s, E p)
{
	std::string r;
	if(!p->isC()) fatal("symbolic string pointer");
	u64 id, off;
	if(!split(p->val, id, off)) return "(null)";
	Obj* o = s.mem.get(id);
	if(!o) return "(bad)";
	while(off < o->size && o->d[off]) r += (char)o->d[off++];
	return r;
}

static E tobool(const Val& v) { return v.e; }

static bool execIntrinsic(State& s, Frame& f, KInst& k)
{
	auto id = k.callee->getIntrinsicID();
	auto A = [&](unsigned i) { return opv(f, k.ops[i]).e; };
	auto set = [&](E e) { f.regs[k.dst] = Val{e}; };
	auto set2 = [&](E e, E o)
	{
		auto* v = new std::vector<Val>{Val{e}, Val{o}};
		f.regs[k.dst] = Val{nullptr, v};
	};
	switch(id)
	{
	case Intrinsic::umin: set(ex::ite(ex::ult(A(0), A(1)), A(0), A(1))); return true;
	case Intrinsic::umax: set(ex::ite(ex::ult(A(0), A(1)), A(1), A(0))); return true;
	case Intrinsic::smin: set(ex::ite(ex::slt(A(0), A(1)), A(0), A(1))); return true;
	case Intrinsic::smax: set(ex::ite(ex::slt(A(0), A(1)), A(1), A(0))); return true;
	case Intrinsic::abs:
		set(ex::ite(ex::slt(A(0), ex::c(A(0)->w, 0)),
		            ex::sub(ex::c(A(0)->w, 0), A(0)), A(0)));
		return true;
	case Intrinsic::expect: set(A(0)); return true;
	case Intrinsic::expect_with_probability: set(A(0)); return true;
	case Intrinsic::is_constant: set(ex::F); return true;
	case Intrinsic::objectsize: set(ex::c(k.w, ~0ull)); return true;
	case Intrinsic::ctpop:
	{
		// balanced tree of adders just wide enough for the count
		E x = A(0);
		std::vector<E> lvl;
		for(unsigned i = 0; i < x->w; i++)
		{
			E b = ex::extract(x, i, 1);
			if(!(b->isC() && b->val == 0)) lvl.push_back(b);
		}
		if(lvl.empty()) lvl.push_back(ex::F);
		while(lvl.size() > 1)
		{
			std::vector<E> nx;
			for(size_t i = 0; i < lvl.size(); i += 2)
			{
				if(i + 1 == lvl.size()) { nx.push_back(lvl[i]); continue; }
				unsigned w = std::max(lvl[i]->w, lvl[i + 1]->w) + 1;
				nx.push_back(ex::add(ex::zext(lvl[i], w), ex::zext(lvl[i + 1], w)));
			}
			lvl = nx;
		}
		E r = lvl[0];
		r = r->w < x->w ? ex::zext(r, x->w) : ex::extract(r, 0, x->w);
		set(r);
		return true;
	}
	case Intrinsic::ctlz:
	{
		E x = A(0), r = ex::c(x->w, x->w);
		for(unsigned i = 0; i < x->w; i++)
			r = ex::ite(ex::extract(x, i, 1), ex::c(x->w, x->w - 1 - i), r);
		set(r);
		return true;
	}
	case Intrinsic::cttz:
	{
		E x = A(0), r = ex::c(x->w, x->w);
		for(unsigned i = x->w; i-- > 0;)
			r = ex::ite(ex::extract(x, i, 1), ex::c(x->w, i), r);
		set(r);
		return true;
	}
	case Intrinsic::bswap:
	{
		E x = A(0), r = ex::extract(x, 0, 8);
		for(unsigned i = 8; i < x->w; i += 8) r = ex::concat(r, ex::extract(x, i, 8));
		set(r);
		return true;
	}
	case Intrinsic::bitreverse:
	{
		E x = A(0), r = ex::extract(x, 0, 1);
		for(unsigned i = 1; i < x->w; i++) r = ex::concat(r, ex::extract(x, i, 1));
		set(r);
		return true;
	}
	case Intrinsic::sadd_sat:
	case Intrinsic::ssub_sat:
	{
		unsigned w = A(0)->w;
		E x = ex::sext(A(0), w + 1), y = ex::sext(A(1), w + 1);
		E r = id == Intrinsic::sadd_sat ? ex::add(x, y) : ex::sub(x, y);
		E lo = ex::extract(r, 0, w), most = ex::c(w, (~0ull >> (64 - w)) >> 1);
		set(ex::ite(ex::eq(ex::sext(lo, w + 1), r), lo,
		            ex::ite(ex::extract(r, w, 1), ex::sub(ex::c(w, 0), ex::add(most, ex::c(w, 1))), most)));
		return true;
	}
	case Intrinsic::fshl:
	case Intrinsic::fshr:
	{
		E x = A(0), y = A(1), n = ex::urem(A(2), ex::c(A(2)->w, A(2)->w));
		unsigned w = x->w;
		E cc = ex::concat(x, y);
		E nn = ex::zext(n, 2 * w);
		if(id == Intrinsic::fshl) set(ex::extract(ex::shl(cc, nn), w, w));
		else set(ex::extract(ex::lshr(cc, nn), 0, w));
		return true;
	}
	case Intrinsic::uadd_sat:
	{
		E sum = ex::add(A(0), A(1));
		set(ex::ite(ex::ult(sum, A(0)), ex::c(k.w, ~0ull), sum));
		return true;
	}
	case Intrinsic::usub_sat:
		set(ex::ite(ex::ult(A(0), A(1)), ex::c(k.w, 0), ex::sub(A(0), A(1))));
		return true;
	case Intrinsic::uadd_with_overflow:
	{
		E sum = ex::add(A(0), A(1));
		set2(sum, ex::ult(sum, A(0)));
		return true;
	}
	case Intrinsic::usub_with_overflow:
		set2(ex::sub(A(0), A(1)), ex::ult(A(0), A(1)));
		return true;
	case Intrinsic::sadd_with_overflow:
	case Intrinsic::ssub_with_overflow:
	case Intrinsic::smul_with_overflow:
	{
		unsigned w = A(0)->w, W = id == Intrinsic::smul_with_overflow ? 2 * w : w + 1;
		E x = ex::sext(A(0), W), y = ex::sext(A(1), W);
		E r = id == Intrinsic::sadd_with_overflow   ? ex::add(x, y)
		      : id == Intrinsic::ssub_with_overflow ? ex::sub(x, y)
		                                            : ex::mul(x, y);
		E lo = ex::extract(r, 0, w);
		set2(lo, ex::ne(ex::sext(lo, W), r));
		return true;
	}
	case Intrinsic::umul_with_overflow:
	{
		unsigned w = A(0)->w;
		E r = ex::mul(ex::zext(A(0), 2 * w), ex::zext(A(1), 2 * w));
		set2(ex::extract(r, 0, w), ex::ne(ex::extract(r, w, w), ex::c(w, 0)));
		return true;
	}
	case Intrinsic::stacksave: set(ex::c(64, 0)); return true;
	case Intrinsic::stackrestore: return true;
	case Intrinsic::threadlocal_address: set(A(0)); return true;
	default:
		fatal("unsupported intrinsic " + k.callee->getName().str());
	}
}

static void doReturn(State& s, Val v)
{
	Ref<Frame> top = s.stack.back();
	for(u64 id : top->allocas) s.mem.kill(id);
	s.stack.pop_back();
	if(s.stack.empty())
	{
		finishPath(s, false);
		return;
	}
	Frame& f = s.stack.back().own();
	KInst& k = f.f->insts[f.pc - 1];
	if(k.dst >= 0) f.regs[k.dst] = v;
	if(auto* inv = dyn_cast<InvokeInst>(k.I))
	{
		(void)inv;
		fatal("invoke");
	}
}

static void abortPath(State& s, const std::string& kind, const std::string& msg)
{
	if(s.allowAbort) finishPath(s, true);
	else failHere(s, kind, msg);
}

static bool copyBytes(State& s, E dst, E src, u64 n)
{
	if(n == 0) return true;
	std::vector<Acc> da, sa;
	if(!resolve(s, src, n, false, sa)) return false;
	if(!resolve(s, dst, n, true, da)) return false;
	if(sa.size() == 1 && da.size() == 1)
	{
		std::vector<uint8_t> d;
		std::vector<E> e;
		{
			Obj* so = s.mem.get(sa[0].id);
			d.assign(so->d.begin() + sa[0].off, so->d.begin() + sa[0].off + n);
			if(!so->s.empty())
			{
				bool any = false;
				for(u64 i = 0; i < n; i++)
					if(so->s[sa[0].off + i]) { any = true; break; }
				if(any) e.assign(so->s.begin() + sa[0].off, so->s.begin() + sa[0].off + n);
			}
		}
		Obj& dobj = s.mem.own(da[0].id);
		std::copy(d.begin(), d.end(), dobj.d.begin() + da[0].off);
		if(!e.empty())
		{
			if(dobj.s.empty()) dobj.s.assign(dobj.size, nullptr);
			std::copy(e.begin(), e.end(), dobj.s.begin() + da[0].off);
		}
		else if(!dobj.s.empty())
			std::fill_n(dobj.s.begin() + da[0].off, n, nullptr);
		return true;
	}
	std::vector<E> bytes(n);
	for(u64 i = 0; i < n; i++)
	{
		E r = loadByte(s, sa.back().id, sa.back().off + i);
		for(size_t j = sa.size() - 1; j-- > 0;)
			r = ex::ite(sa[j].cond, loadByte(s, sa[j].id, sa[j].off + i), r);
		bytes[i] = r;
	}
	for(auto& x : da)
		for(u64 i = 0; i < n; i++) storeAt(s, x.id, x.off + i, bytes[i], x.cond);
	return true;
}

static void branch(State& s, E cond, unsigned bt, unsigned bf)
{
	cond = simp(s, cond);
	if(cond->isC())
	{
		gotoBlock(s, cond->val ? bt : bf);
		return;
	}
	if(s.pcset.count(cond)) { gotoBlock(s, bt); return; }
	E nc = ex::not_(cond);
	if(s.pcset.count(nc)) { gotoBlock(s, bf); return; }
	bool v = s.model->eval(cond) == 1;
	E other = v ? nc : cond;
	std::shared_ptr<Model> m;
	int r = query(s, other, &m);
	if(r == 1)
	{
		State* n = fork(s);
		n->model = m;
		addConstraint(*n, other);
		gotoBlock(*n, v ? bf : bt);
		work.push_back(n);
		addConstraint(s, v ? cond : nc);
	}
	else if(r < 0)
		addConstraint(s, v ? cond : nc);
	gotoBlock(s, v ? bt : bf);
}

static bool execCall(State& s, Frame& f, KInst& k)
{
	Function* callee = k.callee;
	int h = k.handler;
	auto A = [&](unsigned i) { return opv(f, k.ops[i]).e; };
	auto ret = [&](E e) { if(k.dst >= 0) f.regs[k.dst] = Val{e}; };
	if(!callee)
	{
		if(cast<CallBase>(k.I)->isInlineAsm()) return true; // compiler barriers only
		E t = opv(f, k.ops.back()).e;
		if(!t->isC())
		{
			t = concretize(s, t);
			if(!t) return false;
		}
		u64 id, off;
		bool ok = split(t->val, id, off) && off == 0 && funcById.count(id);
		if(!ok)
		{
			failHere(s, "memory", "call through an invalid function pointer");
			return false;
		}
		callee = funcById[id];
		h = handlerFor(callee);
	}
	switch(h)
	{
	case H_Defined:
	{
		std::vector<Val> args;
		for(unsigned i = 0; i < callee->arg_size(); i++) args.push_back(opv(f, k.ops[i]));
		pushFrame(s, callee, args);
		return false; // frame reference is stale
	}
	case H_Nop: return true;
	case H_NopZero:
		externsUsed[callee->getName().str()]++;
		ret(ex::c(k.w ? k.w : 32, 0));
		return true;
	case H_Intrinsic: return execIntrinsic(s, f, k);
	case H_Memcpy:
	{
		E n = A(2);
		if(!n->isC())
		{
			n = concretize(s, n);
			if(!n) return false;
		}
		return copyBytes(s, A(0), A(1), n->val);
	}
	case H_Memset:
	{
		E n = A(2), v = A(1);
		if(!n->isC())
		{
			n = concretize(s, n);
			if(!n) return false;
		}
		if(n->val == 0) return true;
		std::vector<Acc> da;
		if(!resolve(s, A(0), n->val, true, da)) return false;
		for(auto& x : da)
		{
			if(!x.cond && v->isC())
			{
				Obj& o = s.mem.own(x.id);
				std::fill_n(o.d.begin() + x.off, n->val, (uint8_t)v->val);
				if(!o.s.empty()) std::fill_n(o.s.begin() + x.off, n->val, nullptr);
			}
			else
				for(u64 i = 0; i < n->val; i++) storeAt(s, x.id, x.off + i, v, x.cond);
		}
		return true;
	}
	case H_UbTrap:
	{
		std::string msg = "undefined behaviour";
		if(callee->getIntrinsicID() == Intrinsic::ubsantrap)
		{
			static const char* names[] = {
				"add overflow", "builtin unreachable", "cfi", "divrem overflow",
				"dynamic type cache miss", "float cast overflow", "function type mismatch",
				"implicit conversion", "invalid builtin", "invalid objc cast",
				"load of invalid value", "missing return", "mul overflow", "negate overflow",
				"nullability arg", "nullability return", "nonnull arg", "nonnull return",
				"out of bounds", "pointer overflow", "shift out of bounds", "sub overflow",
				"type mismatch", "alignment assumption", "vla bound"};
			u64 n = A(0)->val;
			msg = n < 25 ? names[n] : "kind " + std::to_string(n);
		}
		failHere(s, "ub", msg);
		return false;
	}
	case H_SymBits:
	{
		E w = A(0);
		std::string name = cstr(s, A(1));
		static std::map<std::pair<std::string, std::pair<unsigned, size_t>>, E> reuse;
		// One symbol per (position in the input sequence, width, name), so that
		// the query cache works across paths.
		auto key = std::make_pair(name, std::make_pair((unsigned)w->val, s.inputs.size()));
		E& sy = reuse[key];
		if(!sy) sy = ex::sym(name + "#" + std::to_string(s.inputs.size()), w->val, true);
		s.inputs.push_back({sy, (unsigned)w->val});
		ret(w->val == 64 ? sy : ex::zext(sy, 64));
		return true;
	}
	case H_SymChoice:
	{
		u64 n = A(0)->val;
		for(u64 i = n; i-- > 1;)
		{
			State* st = fork(s);
			Frame& nf = st->stack.back().own();
			nf.regs[k.dst] = Val{ex::c(64, i)};
			st->inputs.push_back({ex::c(64, i), 64});
			work.push_back(st);
		}
		s.stack.back().own().regs[k.dst] = Val{ex::c(64, 0)};
		s.inputs.push_back({ex::c(64, 0), 64});
		return true;
	}
	case H_Assume:
	{
		E c = ex::ne(A(0), ex::c(A(0)->w, 0));
		if(c->isC() && c->val) return true;
		std::shared_ptr<Model> m;
		int r = query(s, c, &m);
		if(r != 1)
		{
			nInfeasible++;
			endPath(s);
			return false;
		}
		s.model = m;
		addConstraint(s, c);
		return true;
	}
	case H_Check:
	{
		std::string msg = cstr(s, A(1));
		nChecks++;
		checkLabels[msg]++;
		E c = simp(s, ex::ne(A(0), ex::c(A(0)->w, 0)));
		if(c->isC() && c->val) nChecksTrivial++;
		return require(s, c, "check", msg);
	}
	case H_Reach: reached[cstr(s, A(0))]++; return true;
	case H_Concretize:
	{
		E c = concretize(s, A(0));
		if(!c) return false;
		s.stack.back().own().regs[k.dst] = Val{c};
		return true;
	}
	case H_Observe:
	{
		s.obs.push_back({cstr(s, A(0)), A(1)});
		return true;
	}
	case H_AllowAbort:
		s.allowAbort = A(0)->val;
		return true;
	case H_Param:
	{
		auto it = optParams.find(cstr(s, A(0)));
		ret(it == optParams.end() ? A(1) : ex::c(64, it->second));
		return true;
	}
	case H_IsEngine: ret(ex::c(k.w, 1)); return true;
	case H_SameObj:
	{
		E a = A(0), b = A(1);
		if(!a->isC() || !b->isC()) fatal("sym_same_object on symbolic pointers");
		ret(ex::c(k.w, (a->val >> ADDR_SHIFT) == (b->val >> ADDR_SHIFT)));
		return true;
	}
	case H_EndPath:
		finishPath(s, false);
		return false;
	case H_Fill: return true;
	case H_New:
	case H_Malloc:
	{
		E n = A(0);
		if(!n->isC())
		{
			n = concretize(s, n);
			if(!n) return false;
		}
		if(n->val >= (1u << ADDR_SHIFT))
		{
			abortPath(s, "abort", "oversized allocation");
			return false;
		}
		ret(ex::c(64, baseOf(allocObj(s, n->val, O_Heap, true))));
		return true;
	}
	case H_Delete:
	{
		E p = A(0);
		if(!p->isC())
		{
			p = concretize(s, p);
			if(!p) return false;
		}
		if(p->val == 0) return true;
		u64 id, off;
		Obj* o = split(p->val, id, off) ? s.mem.get(id) : nullptr;
		if(!o || off || o->kind != O_Heap)
		{
			failHere(s, "memory", "invalid or double free");
			return false;
		}
		s.mem.kill(id);
		return true;
	}
	case H_AssertFail:
	{
		bool glib = callee->getName() != "__assert_fail";
		std::string msg = glib ? cstr(s, A(3)) + ":" + cstr(s, A(2)) : cstr(s, A(0));
		abortPath(s, "assert", "assertion failed: " + msg);
		return false;
	}
	case H_Abort:
		abortPath(s, "abort", "call to " + demangle(callee->getName().str()));
		return false;
	case H_Trap:
		incomplete.push_back("call to unmodelled external " +
		                     demangle(callee->getName().str()) + " at " + backtrace(s));
		endPath(s);
		return false;
	}
	fatal("handler");
}

static E cmp(CmpInst::Predicate p, E a, E b)
{
	switch(p)
	{
	case CmpInst::ICMP_EQ: return ex::eq(a, b);
	case CmpInst::ICMP_NE: return ex::ne(a, b);
	case CmpInst::ICMP_ULT: return ex::ult(a, b);
	case CmpInst::ICMP_ULE: return ex::ule(a, b);
	case CmpInst::ICMP_UGT: return ex::ult(b, a);
	case CmpInst::ICMP_UGE: return ex::ule(b, a);
	case CmpInst::ICMP_SLT: return ex::slt(a, b);
	case CmpInst::ICMP_SLE: return ex::sle(a, b);
	case CmpInst::ICMP_SGT: return ex::slt(b, a);
	case CmpInst::ICMP_SGE: return ex::sle(b, a);
	default: fatal("fcmp");
	}
}

static E arith(unsigned op, E a, E b)
{
	switch(op)
	{
	case Instruction::Add: return ex::add(a, b);
	case Instruction::Sub: return ex::sub(a, b);
	case Instruction::Mul: return ex::mul(a, b);
	case Instruction::UDiv: return ex::udiv(a, b);
	case Instruction::SDiv: return ex::sdiv(a, b);
	case Instruction::URem: return ex::urem(a, b);
	case Instruction::SRem: return ex::srem(a, b);
	case Instruction::And: return ex::and_(a, b);
	case Instruction::Or: return ex::or_(a, b);
	case Instruction::Xor: return ex::xor_(a, b);
	case Instruction::Shl: return ex::shl(a, b);
	case Instruction::LShr: return ex::lshr(a, b);
	case Instruction::AShr: return ex::ashr(a, b);
	}
	fatal("arith");
}

static Val iteVal(E c, const Val& a, const Val& b)
{
	if(a.agg)
	{
		auto* v = new std::vector<Val>;
		for(size_t i = 0; i < a.agg->size(); i++)
			v->push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i]));
		return Val{nullptr, v};
	}
	return Val{ex::ite(c, a.e, b.e)};
}

template<typename Fn> static Val lift1(const Val& a, Fn fn)
{
	if(!a.agg) return Val{fn(a.e)};
	auto* v = new std::vector<Val>;
	for(auto& x : *a.agg) v->push_back(Val{fn(x.e)});
	return Val{nullptr, v};
}
template<typename Fn> static Val lift2(const Val& a, const Val& b, Fn fn)
{
	if(!a.agg) return Val{fn(a.e, b.e)};
	auto* v = new std::vector<Val>;
	for(size_t i = 0; i < a.agg->size(); i++)
		v->push_back(Val{fn((*a.agg)[i].e, (*b.agg)[i].e)});
	return Val{nullptr, v};
}

static void run(State& s)
{
	while(!s.dead)
	{
		if(s.stack.empty()) { finishPath(s, false); return; }
		Frame& f = s.stack.back().own();
		KInst& k = f.f->insts[f.pc++];
		k.visited = true;
		nInsts++;
		if(++s.insts > maxInsts) maxInsts = s.insts;
		if(s.insts > optMaxInsts)
		{
			// Judged by whether the real code ends on these inputs.
			report(s, "hang", "does not end", s.model);
			work.clear(); // other paths likely hang as well
			return;
		}
		switch(k.op)
		{
		case Instruction::Ret:
			doReturn(s, k.ops.empty() ? Val{} : opv(f, k.ops[0]));
			break;
		case Instruction::Br:
			if(k.ops.empty()) gotoBlock(s, k.succ[0]);
			else branch(s, tobool(opv(f, k.ops[0])), k.succ[0], k.succ[1]);
			break;
		case Instruction::Switch:
		{
			E c = opv(f, k.ops[0]).e;
			if(!c->isC())
				if(E cc = s.lookupConc(c)) c = cc;
			if(c->isC())
			{
				unsigned t = k.succ[0];
				for(size_t i = 0; i < k.caseVals.size(); i++)
					if(k.caseVals[i] == c->val) { t = k.succ[i + 1]; break; }
				gotoBlock(s, t);
				break;
			}
			// one fork per feasible target block
			std::map<unsigned, E> targets;
			std::vector<unsigned> order;
			E def = ex::T;
			for(size_t i = 0; i < k.caseVals.size(); i++)
			{
				E h = ex::eq(c, ex::c(c->w, k.caseVals[i]));
				def = ex::and_(def, ex::not_(h));
				auto it = targets.find(k.succ[i + 1]);
				if(it == targets.end())
				{
					targets[k.succ[i + 1]] = h;
					order.push_back(k.succ[i + 1]);
				}
				else it->second = ex::or_(it->second, h);
			}
			if(targets.count(k.succ[0])) targets[k.succ[0]] = ex::or_(targets[k.succ[0]], def);
			else
			{
				targets[k.succ[0]] = def;
				order.push_back(k.succ[0]);
			}
			struct Br { unsigned t; E c; std::shared_ptr<Model> m; };
			std::vector<Br> feas;
			for(unsigned t : order)
			{
				std::shared_ptr<Model> m;
				int r = query(s, targets[t], &m);
				if(r == 1) feas.push_back({t, targets[t], m});
			}
			if(feas.empty()) { endPath(s); break; }
			for(size_t i = 1; i < feas.size(); i++)
			{
				State* n = fork(s);
				n->model = feas[i].m;
				addConstraint(*n, feas[i].c);
				gotoBlock(*n, feas[i].t);
				work.push_back(n);
			}
			s.model = feas[0].m;
			addConstraint(s, feas[0].c);
			gotoBlock(s, feas[0].t);
			break;
		}
		case Instruction::Unreachable:
			failHere(s, "ub", "reached an unreachable statement");
			break;
		case Instruction::UDiv: case Instruction::SDiv:
		case Instruction::URem: case Instruction::SRem:
		{
			E b = opv(f, k.ops[1]).e;
			if(!require(s, ex::ne(b, ex::c(b->w, 0)), "ub", "division by zero")) break;
			E a = opv(f, k.ops[0]).e;
			s.stack.back().own().regs[k.dst] = Val{arith(k.op, a, b)};
			break;
		}
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
		case Instruction::And: case Instruction::Or: case Instruction::Xor:
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		{
			unsigned op = k.op;
			f.regs[k.dst] = lift2(opv(f, k.ops[0]), opv(f, k.ops[1]),
			                      [op](E a, E b) { return arith(op, a, b); });
			break;
		}
		case Instruction::ICmp:
		{
			auto p = cast<ICmpInst>(k.I)->getPredicate();
			f.regs[k.dst] = lift2(opv(f, k.ops[0]), opv(f, k.ops[1]),
			                      [p](E a, E b) { return cmp(p, a, b); });
			break;
		}
		case Instruction::Select:
		{
			Val c = opv(f, k.ops[0]);
			if(c.agg) fatal("vector select");
			E ce = c.e;
			if(!ce->isC())
			{
				if(s.pcset.count(ce)) ce = ex::T;
				else if(s.pcset.count(ex::not_(ce))) ce = ex::F;
			}
			if(ce->isC()) f.regs[k.dst] = opv(f, k.ops[ce->val ? 1 : 2]);
			else f.regs[k.dst] = iteVal(ce, opv(f, k.ops[1]), opv(f, k.ops[2]));
			break;
		}
		case Instruction::Alloca:
		{
			auto* ai = cast<AllocaInst>(k.I);
			E n = opv(f, k.ops[0]).e;
			if(!n->isC()) fatal("symbolic alloca");
			u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n->val;
			u64 id = allocObj(s, sz, O_Stack, true);
			f.allocas.push_back(id);
			f.regs[k.dst] = Val{ex::c(64, baseOf(id))};
			break;
		}
		case Instruction::Load:
		{
			Val v = loadTyped(s, opv(f, k.ops[0]).e, k.ty);
			if(s.dead) break;
			s.stack.back().own().regs[k.dst] = v;
			break;
		}
		case Instruction::Store:
			storeTyped(s, opv(f, k.ops[1]).e, opv(f, k.ops[0]),
			           cast<StoreInst>(k.I)->getValueOperand()->getType());
			break;
		case Instruction::GetElementPtr:
		{
			E p = opv(f, k.ops[0]).e;
			for(auto& g : k.gepVar)
			{
				E i = opv(f, k.ops[g.first]).e;
				if(i->w < 64) i = ex::sext(i, 64);
				else if(i->w > 64) i = ex::extract(i, 0, 64);
				p = ex::add(p, ex::mul(i, ex::c(64, g.second)));
			}
			if(k.gepConst) p = ex::add(p, ex::c(64, (u64)k.gepConst));
			f.regs[k.dst] = Val{p};
			break;
		}
		case Instruction::Trunc:
		case Instruction::ZExt:
		case Instruction::SExt:
		case Instruction::PtrToInt:
		case Instruction::IntToPtr:
		{
			unsigned w = widthOf(k.ty->isVectorTy() ? k.ty->getScalarType() : k.ty);
			unsigned op = k.op;
			f.regs[k.dst] = lift1(opv(f, k.ops[0]), [w, op](E e) -> E
			                      {
				                      if(w == e->w) return e;
				                      if(w < e->w) return ex::extract(e, 0, w);
				                      return op == Instruction::SExt ? ex::sext(e, w)
				                                                     : ex::zext(e, w);
			                      });
			break;
		}
		case Instruction::Freeze:
			f.regs[k.dst] = opv(f, k.ops[0]);
			break;
		case Instruction::BitCast:
		{
			Val v = opv(f, k.ops[0]);
			Type* st = k.I->getOperand(0)->getType();
			if(v.agg)
			{
				E e = (*v.agg)[0].e;
				for(size_t i = 1; i < v.agg->size(); i++) e = ex::concat((*v.agg)[i].e, e);
				v = Val{e};
			}
			(void)st;
			if(k.ty->isVectorTy())
			{
				unsigned w = widthOf(k.ty->getScalarType());
				auto* nv = new std::vector<Val>;
				for(unsigned i = 0; i * w < v.e->w; i++)
					nv->push_back(Val{ex::extract(v.e, i * w, w)});
				v = Val{nullptr, nv};
			}
			f.regs[k.dst] = v;
			break;
		}
		case Instruction::ExtractValue:
		{
			Val v = opv(f, k.ops[0]);
			for(unsigned i : cast<ExtractValueInst>(k.I)->indices()) v = Val((*v.agg)[i]);
			f.regs[k.dst] = v;
			break;
		}
		case Instruction::InsertValue:
		{
			auto* iv = cast<InsertValueInst>(k.I);
			std::function<Val(const Val&, ArrayRef<unsigned>)> ins =
				[&](const Val& a, ArrayRef<unsigned> ix) -> Val
			{
				if(ix.empty()) return opv(f, k.ops[1]);
				auto* nv = new std::vector<Val>(*a.agg);
				(*nv)[ix[0]] = ins((*nv)[ix[0]], ix.drop_front());
				return Val{nullptr, nv};
			};
			f.regs[k.dst] = ins(opv(f, k.ops[0]), iv->getIndices());
			break;
		}
		case Instruction::ExtractElement:
		{
			E i = opv(f, k.ops[1]).e;
			if(!i->isC()) fatal("symbolic extractelement");
			f.regs[k.dst] = (*opv(f, k.ops[0]).agg)[i->val];
			break;
		}
		case Instruction::InsertElement:
		{
			E i = opv(f, k.ops[2]).e;
			if(!i->isC()) fatal("symbolic insertelement");
			auto* nv = new std::vector<Val>(*opv(f, k.ops[0]).agg);
			(*nv)[i->val] = opv(f, k.ops[1]);
			f.regs[k.dst] = Val{nullptr, nv};
			break;
		}
		case Instruction::ShuffleVector:
		{
			auto* sv = cast<ShuffleVectorInst>(k.I);
			Val a = opv(f, k.ops[0]), b = opv(f, k.ops[1]);
			auto* nv = new std::vector<Val>;
			for(int m : sv->getShuffleMask())
			{
				if(m < 0) nv->push_back(undefVal(k.ty->getScalarType()));
				else if((size_t)m < a.agg->size()) nv->push_back((*a.agg)[m]);
				else nv->push_back((*b.agg)[m - a.agg->size()]);
			}
			f.regs[k.dst] = Val{nullptr, nv};
			break;
		}
		case Instruction::AtomicRMW:
		{
			auto* a = cast<AtomicRMWInst>(k.I);
			E addr = opv(f, k.ops[0]).e, v = opv(f, k.ops[1]).e;
			E old = loadMem(s, addr, v->w / 8);
			if(!old) break;
			E n;
			switch(a->getOperation())
			{
			case AtomicRMWInst::Add: n = ex::add(old, v); break;
			case AtomicRMWInst::Sub: n = ex::sub(old, v); break;
			case AtomicRMWInst::Xchg: n = v; break;
			default: fatal("atomicrmw");
			}
			if(!storeMem(s, addr, n)) break;
			s.stack.back().own().regs[k.dst] = Val{old};
			break;
		}
		case Instruction::Fence: break;
		case Instruction::Call:
			execCall(s, f, k);
			break;
		default:
		{
			std::string str;
			raw_string_ostream os(str);
			k.I->print(os);
			fatal("unsupported instruction " + os.str());
		}
		}
		if(violations.size() >= optMaxViol) return;
		if((nInsts & 0xfff) == 0 && now() - t0 > optTimeout) return;
	}
}

// ---------------------------------------------------------------- globals
static void initMem(State& s, u64 id, u64 off, Constant* c)
{
	Type* t = c->getType();
	if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
	if(auto* cd = dyn_cast<ConstantDataSequential>(c))
	{
		StringRef raw = cd->getRawDataValues();
		Obj& o = s.mem.own(id);
		memcpy(&o.d[off], raw.data(), raw.size());
		return;
	}
	if(auto* st = dyn_cast<StructType>(t))
	{
		auto* sl = DL->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); i++)
			initMem(s, id, off + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if(t->isArrayTy())
	{
		u64 sz = DL->getTypeAllocSize(t->getArrayElementType());
		for(u64 i = 0; i < t->getArrayNumElements(); i++)
			initMem(s, id, off + i * sz, c->getAggregateElement(i));
		return;
	}
	bool u = false;
	Val v = constVal(c, u);
	E e = v.e;
	unsigned bytes = (e->w + 7) / 8;
	if(e->w != bytes * 8) e = ex::zext(e, bytes * 8);
	storeAt(s, id, off, e, nullptr);
}

static std::string jstr(const std::string& s)
{
	std::string r = "\"";
	for(char c : s)
	{
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if((unsigned char)c < 32) r += ' ';
		else r += c;
	}
	return r + "\"";
}

int main(int argc, char** argv)
{
	// Deep recursion on expressions: re-exec with a big stack.
	{
		rlimit rl;
		getrlimit(RLIMIT_STACK, &rl);
		if(rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMEX_STK"))
		{
			rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : rl.rlim_max;
			if(setrlimit(RLIMIT_STACK, &rl) == 0)
			{
				setenv("SYMEX_STK", "1", 1);
				execv("/proc/self/exe", argv);
			}
		}
	}
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto nx = [&]() -> std::string
		{
			if(i + 1 >= argc) fatal("missing value for " + a);
			return argv[++i];
		};
		if(a == "--entry") optEntry = nx();
		else if(a == "--out") optOut = nx();
		else if(a == "--traces") optTraces = nx();
		else if(a == "--max-traces") optMaxTraces = std::stoull(nx());
		else if(a == "--dump") optDump = nx();
		else if(a == "--timeout") optTimeout = std::stod(nx());
		else if(a == "--query-ms") optQueryMs = std::stoul(nx());
		else if(a == "--seed") optSeed = std::stoull(nx());
		else if(a == "--max-insts") optMaxInsts = std::stoull(nx());
		else if(a == "--max-violations") optMaxViol = std::stoull(nx());
		else if(a == "--repo") optRepo = nx();
		else if(a == "--param")
		{
			std::string p = nx();
			auto e = p.find('=');
			optParams[p.substr(0, e)] = std::stoull(p.substr(e + 1));
		}
		else optBc = a;
	}
	t0 = now();
	rng.seed(optSeed);
	ex::init();
	SMDiagnostic err;
	M = parseIRFile(optBc, err, LC);
	if(!M) fatal("cannot read " + optBc + ": " + err.getMessage().str());
	DL = &M->getDataLayout();
	Z = new Z3Tr;
	if(const char* sv = getenv("SYMEX_SOLVER"))
	{
		if(!strcmp(sv, "simple")) solver = Z3_mk_simple_solver(Z->ctx);
		else
		{
			Z3_tactic t = Z3_mk_tactic(Z->ctx, sv);
			Z3_tactic_inc_ref(Z->ctx, t);
			solver = Z3_mk_solver_from_tactic(Z->ctx, t);
		}
	}
	else solver = Z3_mk_solver_for_logic(Z->ctx, Z3_mk_string_symbol(Z->ctx, "QF_BV"));
	Z3_solver_inc_ref(Z->ctx, solver);
	{
		Z3_params p = Z3_mk_params(Z->ctx);
		Z3_params_inc_ref(Z->ctx, p);
		Z3_params_set_uint(Z->ctx, p, Z3_mk_string_symbol(Z->ctx, "timeout"), optQueryMs);
		Z3_solver_set_params(Z->ctx, solver, p);
	}
	State* init = new State;
	init->model = std::make_shared<Model>();
	for(auto& F : *M)
	{
		Obj* o = new Obj;
		o->kind = O_Func;
		u64 id = init->mem.put(o);
		globalAddr[&F] = baseOf(id);
		funcById[id] = &F;
	}
	for(auto& g : M->globals())
	{
		u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
		if(g.isDeclaration()) sz = std::max<u64>(sz, 16);
		u64 id = allocObj(*init, sz, O_Global, false);
		globalAddr[&g] = baseOf(id);
	}
	for(auto& g : M->globals())
	{
		u64 id = globalAddr[&g] / (1ull << ADDR_SHIFT) - 1;
		if(g.hasInitializer()) initMem(*init, id, 0, g.getInitializer());
		Obj& o = init->mem.own(id);
		if(g.isConstant()) o.ro = true;
	}
	// constructors, then the entry
	std::vector<std::pair<u64, Function*>> ctors;
	if(auto* gc = M->getNamedGlobal("llvm.global_ctors"))
		if(auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
			for(auto& o : ca->operands())
			{
				auto* cs = cast<ConstantStruct>(o);
				if(auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
					ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
			}
	std::stable_sort(ctors.begin(), ctors.end(),
	                 [](auto& a, auto& b) { return a.first < b.first; });
	State* cur = init;
	for(auto& c : ctors)
	{
		pushFrame(*cur, c.second, {});
		size_t before = violations.size();
		run(*cur);
		if(violations.size() > before || !incomplete.empty() || !work.empty())
			fatal("global constructor failed: " + c.second->getName().str() +
			      (incomplete.empty() ? "" : " " + incomplete[0]) +
			      (violations.empty() ? "" : " " + violations[0].kind + violations[0].msg + violations[0].where));
		cur->dead = false;
		cur->stack.clear();
	}
	nPaths = nRejected = 0;
	traces.clear();
	traceSeen = 0;
	cur->obs.clear();
	cur->insts = 0;
	Function* F = M->getFunction(optEntry);
	if(!F || F->isDeclaration()) fatal("no entry " + optEntry);
	pushFrame(*cur, F, {});
	work.push_back(cur);
	bool timedOut = false;
	while(!work.empty())
	{
		State* s = work.back();
		work.pop_back();
		run(*s);
		delete s;
		if(violations.size() >= optMaxViol) break;
		if(now() - t0 > optTimeout)
		{
			timedOut = true;
			incomplete.push_back("time budget exceeded");
			break;
		}
	}
	(void)timedOut;
	// coverage of /repo code
	std::set<std::string> fns;
	std::map<std::string, std::set<unsigned>> lines;
	for(auto& kv : kfuncs)
	{
		for(auto& k : kv.second->insts)
		{
			if(!k.visited) continue;
			const DILocation* l = k.I->getDebugLoc().get();
			for(; l; l = l->getInlinedAt())
			{
				std::string fn = l->getFilename().str();
				if(fn.compare(0, optRepo.size() + 1, optRepo + "/") != 0) continue;
				fn = fn.substr(optRepo.size() + 1);
				lines[fn].insert(l->getLine());
				if(auto* sp = l->getScope()->getSubprogram())
					fns.insert(sp->getName().str() + " (" + fn + ")");
			}
		}
	}
	std::ostringstream o;
	o << "{\"entry\":" << jstr(optEntry) << ",\"paths\":" << nPaths
	  << ",\"rejected_paths\":" << nRejected << ",\"states\":" << nStates
	  << ",\"assumed_away\":" << nInfeasible << ",\"forks\":" << nForks
	  << ",\"blocks\":" << nBlocks << ",\"instructions\":" << nInsts
	  << ",\"longest_path\":" << maxInsts << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat
	  << ",\"unknown\":" << nUnknown << ",\"cache_hits\":" << nCacheHits
	  << ",\"model_hits\":" << nModelHits << ",\"checks\":" << nChecks
	  << ",\"checks_folded\":" << nChecksTrivial
	  << ",\"symbolic_accesses\":" << nSymAccess << ",\"loads\":" << nLoads
	  << ",\"stores\":" << nStores << ",\"solver_s\":" << solverTime
	  << ",\"slowest_query_s\":" << slowest << ",\"wall_s\":" << now() - t0;
	auto dumpMap = [&](const char* n, std::map<std::string, u64>& m)
	{
		o << ",\"" << n << "\":{";
		bool first = true;
		for(auto& p : m)
		{
			o << (first ? "" : ",") << jstr(p.first) << ":" << p.second;
			first = false;
		}
		o << "}";
	};
	dumpMap("reached", reached);
	dumpMap("check_labels", checkLabels);
	o << ",\"functions\":[";
	{
		bool first = true;
		for(auto& x : fns)
		{
			o << (first ? "" : ",") << jstr(x);
			first = false;
		}
	}
	o << "],\"lines\":{";
	{
		bool first = true;
		for(auto& p : lines)
		{
			o << (first ? "" : ",") << jstr(p.first) << ":[";
			bool f2 = true;
			for(auto l : p.second)
			{
				o << (f2 ? "" : ",") << l;
				f2 = false;
			}
			o << "]";
			first = false;
		}
	}
	o << "},\"incomplete\":[";
	{
		std::set<std::string> u(incomplete.begin(), incomplete.end());
		bool first = true;
		for(auto& x : u)
		{
			o << (first ? "" : ",") << jstr(x);
			first = false;
		}
	}
	o << "],\"violations\":[";
	for(size_t i = 0; i < violations.size(); i++)
	{
		auto& v = violations[i];
		o << (i ? "," : "") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg)
		  << ",\"where\":" << jstr(v.where) << ",\"inputs\":[";
		for(size_t j = 0; j < v.inputs.size(); j++)
			o << (j ? "," : "") << "[" << jstr(v.names[j]) << "," << v.inputs[j].first << ",\""
			  << v.inputs[j].second << "\"]";
		o << "]}";
	}
	o << "]}\n";
	if(optOut.empty()) fputs(o.str().c_str(), stdout);
	else std::ofstream(optOut) << o.str();
	if(!optTraces.empty())
	{
		std::ofstream t(optTraces);
		for(auto& tr : traces)
		{
			t << "T " << (tr.rejected ? "rejected" : "done") << " " << tr.in.size();
			for(auto& p : tr.in) t << " " << p.second;
			t << " " << tr.obs.size();
			for(auto& p : tr.obs) t << " " << p.first << " " << p.second;
			t << "\n";
		}
	}
	fflush(nullptr);
	if(!violations.empty()) _exit(1);
	if(!incomplete.empty()) _exit(2);
	_exit(0);
}
