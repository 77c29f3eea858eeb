// Path-based symbolic execution of LLVM IR with Z3: a small KLEE-class engine.
// usage: symex module.bc < jobs.jsonl > results.jsonl
#include "expr.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <unordered_set>

using namespace llvm;
typedef ::Expr E;
static ExprMgr X;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct V { uint64_t c; const E* e; };
static inline V cv(uint64_t c) { return V{c, nullptr}; }
static inline V ev(const E* e) { if (e->op == O_CONST) return V{e->val, nullptr}; return V{0, e}; }
static inline const E* toE(V v, int w) { return v.e ? v.e : X.constant(v.c, w); }

// ---------------------------------------------------------------- memory
static const E* const UNDEF = reinterpret_cast<const E*>(8);

struct Obj {
    int rc = 0;
    uint64_t size = 0;
    bool freed = false, ro = false;
    uint8_t kind = 0;   // 0 global, 1 stack, 2 heap
    std::vector<uint8_t> b;
    std::vector<const E*> s;  // empty: fully concrete
};
template <class T> struct Ref {
    T* p = nullptr;
    Ref() {}
    explicit Ref(T* q) : p(q) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
    Ref& operator=(const Ref& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    Ref& operator=(Ref&& o) { std::swap(p, o.p); return *this; }
    ~Ref() { drop(); }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    T* operator->() const { return p; }
};
constexpr int CH = 64;
struct Chunk { int rc = 0; Ref<Obj> o[CH]; };
struct Mem {
    std::vector<Ref<Chunk>> ch;
    uint32_t n = 1;  // object 0 unused (null)
    uint32_t add(Ref<Obj> o) {
        uint32_t id = n++;
        if (id / CH >= ch.size()) ch.resize(id / CH + 1);
        Chunk*& c = ch[id / CH].p;
        if (!c) { ch[id / CH] = Ref<Chunk>(new Chunk); }
        writable(id / CH)->o[id % CH] = o;
        return id;
    }
    Chunk* writable(uint32_t ci) {
        Ref<Chunk>& r = ch[ci];
        if (r.p->rc > 1) { Chunk* c = new Chunk; for (int i = 0; i < CH; i++) c->o[i] = r.p->o[i]; r = Ref<Chunk>(c); }
        return r.p;
    }
    Obj* get(uint32_t id) const { return id && id < n && ch[id / CH].p ? ch[id / CH].p->o[id % CH].p : nullptr; }
    Obj* getw(uint32_t id) {
        Chunk* c = writable(id / CH);
        Ref<Obj>& r = c->o[id % CH];
        if (r.p->rc > 1) { Obj* o = new Obj(*r.p); o->rc = 0; r = Ref<Obj>(o); }
        return r.p;
    }
};
static inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 32) + 0x10000; }
constexpr uint64_t FNBASE = 1ULL << 60;

// ---------------------------------------------------------------- code
struct Opnd { int slot; uint64_t c; uint8_t w; bool undef; };
struct Insn {
    unsigned opc;
    uint8_t w = 0, w2 = 0;
    int dst = -1;
    int sub = 0;                 // predicate, lo etc
    bool ptr = false;
    std::vector<Opnd> ops;       // flattened scalars
    std::vector<int64_t> aux;    // gep scales / switch values / leaf widths
    std::vector<int> tgt;        // successors (block ids)
    const Function* callee = nullptr;
    int cfn = -1;                // code index of a defined callee
    int intr = -1;               // intrinsic handler index
    std::vector<int> argLeaves;  // number of scalars per argument
    const Instruction* I = nullptr;
    int nleaf = 0;
};
struct PhiMove { int dst; Opnd src; };
struct Block { std::vector<Insn> in; std::map<int, std::vector<PhiMove>> phis; bool hasPhi = false; };
struct Fn { const Function* F; std::string name; std::vector<Block> bb; int nslots = 0;
    std::vector<uint8_t> slotW; std::vector<bool> slotPtr;   // pointer used for more than comparisons
    std::vector<int> ipdom;                                 // immediate post-dominator (paths to a return), -1: the return
    std::map<int, std::vector<bool>> loops;                 // header -> body of the natural loop
    std::vector<std::vector<int>> loopsOf;                  // block -> headers of the loops around it, outermost first
    std::map<int, std::vector<int>> loopsFromMemo;
    // those whose header can be reached from b without passing the immediate post-dominator of b
    const std::vector<int>& loopsFrom(int b) {
        auto it = loopsFromMemo.find(b);
        if (it != loopsFromMemo.end()) return it->second;
        std::vector<int>& r = loopsFromMemo[b];
        if (loopsOf[b].empty()) return r;
        std::vector<bool> seen(bb.size(), false);
        std::vector<int> todo{b};
        while (!todo.empty()) { int x = todo.back(); todo.pop_back(); for (int t : bb[x].in.back().tgt) if (t != ipdom[b] && !seen[t]) { seen[t] = true; todo.push_back(t); } }
        for (int h : loopsOf[b]) if (seen[h]) r.push_back(h);
        return r;
    }
    bool live = false; std::vector<std::vector<bool>> liveOut; std::vector<int> argSlots; std::vector<int> argW; bool vararg = false; bool repo = false; bool touched = false; };

struct Frame {
    int fn, bb, pc, prevbb;
    int base;
    int retDst; int retLeaves; int normalBB;  // for invoke
    std::vector<uint32_t> allocas;
    std::vector<V> va; std::vector<int> vaw;
    std::vector<uint32_t> vaPtrs;
};

struct Cons { int rc = 0; const E* e; Ref<Cons> next; Cons(const E* x, const Ref<Cons>& n) : e(x), next(n) {} };

struct RunOut {
    std::string kind;  // ok exit crash...
    std::string detail;
    int64_t code = 0;
    std::vector<V> words;
    std::vector<V> err;    // captured stderr
    std::vector<V> out;    // bytes written to the modelled output file
    int outState = 0;
};
struct State {
    std::vector<Frame> fr;
    std::vector<V> slots;
    Mem mem;
    std::vector<Dom> dom;
    Ref<Cons> cons;
    Sup ent;
    uint64_t steps = 0;
    std::vector<RunOut> outs;
    std::vector<V> err, outb;
    int outState = 0;
    uint64_t exPtr = 0, exType = 0, unwinds = 0; int exSel = 0;           // exception in flight
    std::vector<std::pair<uint64_t, uint64_t>> caught;       // exceptions being handled
    std::vector<std::pair<int,int64_t>> notes;
    int forks = 0;
};

static const DataLayout* DL;
static std::vector<Fn> fns;
static std::unordered_map<const Function*, int> fnIdx;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::vector<const Function*> fnByAddr;
static Z3_context ZC;
static uint64_t nQueries, nCacheHits, nUnary;
static double solverTime;
static std::set<std::string> unsupportedSet;

struct Unsupported { std::string what; };
struct Crash { std::string kind, what; };
struct Fork {};  // the current instruction must be re-executed (constraints were added)
struct PathEnd {};
[[noreturn]] static void unsup(const std::string& s) { throw Unsupported{s}; }
[[noreturn]] static void crash(const std::string& k, const std::string& s) { throw Crash{k, s}; }

// ---------------------------------------------------------------- solver
static std::unordered_map<std::string, int> qcache;
static unsigned qTimeout = 60000;
struct Timeout {};

static Z3_ast domAst(int v, const Dom& d) {
    Z3_ast x = X.zvar(v);
    std::vector<Z3_ast> o;
    for (int i = 0; i < 256;) {
        if (!d[i]) { i++; continue; }
        int j = i; while (j + 1 < 256 && d[j + 1]) j++;
        if (i == 0 && j == 255) return Z3_mk_true(ZC);
        if (i == j) o.push_back(Z3_mk_eq(ZC, x, X.zc(i, 8)));
        else { Z3_ast a[2] = {Z3_mk_bvuge(ZC, x, X.zc(i, 8)), Z3_mk_bvule(ZC, x, X.zc(j, 8))}; o.push_back(Z3_mk_and(ZC, 2, a)); }
        i = j + 1;
    }
    if (o.empty()) return Z3_mk_false(ZC);
    return o.size() == 1 ? o[0] : Z3_mk_or(ZC, o.size(), o.data());
}

static void slice(const State& s, Sup seed, std::vector<const E*>& cs, Sup& all) {
    std::vector<const E*> rest;
    for (Cons* c = s.cons.p; c; c = c->next.p) rest.push_back(c->e);
    bool ch = true;
    all = seed;
    while (ch) {
        ch = false;
        for (auto& e : rest) if (e && (e->sup & all).any()) { cs.push_back(e); all |= e->sup; e = nullptr; ch = true; }
    }
}
static Z3_solver mkSolver(bool fp) {
    Z3_solver sv = Z3_mk_solver_for_logic(ZC, Z3_mk_string_symbol(ZC, fp ? "QF_BVFP" : "QF_BV"));
    Z3_solver_inc_ref(ZC, sv);
    Z3_params p = Z3_mk_params(ZC); Z3_params_inc_ref(ZC, p);
    Z3_params_set_uint(ZC, p, Z3_mk_string_symbol(ZC, "timeout"), qTimeout);
    Z3_solver_set_params(ZC, sv, p); Z3_params_dec_ref(ZC, p);
    return sv;
}
static bool hasFp(const E* e, std::unordered_map<const E*, bool>& memo) {
    if (!e || e->op == O_CONST || e->op == O_VAR || e->op == O_TABLE) return false;
    if (e->op >= O_SITOFP) return true;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = hasFp(e->a, memo) || hasFp(e->b, memo) || hasFp(e->c, memo);
    return memo[e] = r;
}
// known assignments: a constraint set that one of them satisfies needs no query
static std::vector<std::vector<uint64_t>> models;
static size_t modelNext;
static uint64_t nModelHits;
static struct Evaluator {
    std::vector<uint64_t> val; std::vector<uint32_t> stamp; uint32_t epoch = 0;
    const std::vector<uint64_t>* asg = nullptr;
    void begin(const std::vector<uint64_t>& a) { epoch++; asg = &a; if (val.size() < X.arena.size() + 1) { val.resize(X.arena.size() * 2 + 1024); stamp.resize(val.size(), 0); } }
    uint64_t eval(const E* e) {
        switch (e->op) {
        case O_CONST: return e->val;
        case O_VAR: return e->val < asg->size() ? (*asg)[e->val] : 0;
        default: break;
        }
        if (e->uvar >= 0) return X.table(e)[(*asg)[e->uvar]];
        if (stamp[e->id] == epoch) return val[e->id];
        uint64_t r;
        if (e->op == O_ITE) r = eval(e->a) ? eval(e->b) : eval(e->c);
        else if (e->w == 1 && e->op == O_AND) r = eval(e->a) && eval(e->b);
        else if (e->w == 1 && e->op == O_OR) r = eval(e->a) || eval(e->b);
        else r = X.evalOp(e, e->a ? eval(e->a) : 0, e->b ? eval(e->b) : 0, e->c ? eval(e->c) : 0);
        stamp[e->id] = epoch; val[e->id] = r;
        return r;
    }
} evaluator;
static void remember(const std::vector<uint64_t>& m) {
    if (models.size() < 64) models.push_back(m);
    else models[modelNext++ % 64] = m;
}
static bool modelSat(const State& s, const std::vector<const E*>& cs, const Sup& all, const E* cond) {
    auto holds = [&](const std::vector<uint64_t>& m) {
        for (int v = all._Find_first(); v < MAXV; v = all._Find_next(v)) if (X.vars[v].w == 8 && !X.vars[v].undef && !s.dom[v][m[v]]) return false;
        evaluator.begin(m);
        for (auto it = cs.rbegin(); it != cs.rend(); ++it) if (!evaluator.eval(*it)) return false;
        return true;
    };
    for (auto& m : models) if (m.size() < X.vars.size()) m.resize(X.vars.size(), 0);
    for (size_t i = models.size(); i-- > 0;) if (holds(models[i])) return true;
    // vary the variables of the condition
    int tries = 0;
    if (cond->uvar >= 0) {
        int v = cond->uvar; const uint64_t* t = X.table(cond);
        for (size_t i = models.size(); i-- > 0 && tries < 40;) {
            std::vector<uint64_t> m = models[i];
            for (int x = s.dom[v]._Find_first(); x < 256 && tries < 40; x = s.dom[v]._Find_next(x)) if (t[x]) { m[v] = x; tries++; if (holds(m)) { remember(m); return true; } }
        }
    }
    // move the values into the domains
    for (size_t i = models.size(); i-- > 0 && tries < 60;) {
        std::vector<uint64_t> m = models[i]; bool ch = false;
        for (int v = all._Find_first(); v < MAXV; v = all._Find_next(v)) if (X.vars[v].w == 8 && !X.vars[v].undef && !s.dom[v][m[v]]) { m[v] = s.dom[v]._Find_first(); ch = true; }
        if (!ch) continue;
        tries++;
        if (holds(m)) { remember(m); return true; }
    }
    return false;
}
static bool sat(const State& s, const E* cond) {
    if (cond->op == O_CONST) return cond->val;
    std::vector<const E*> cs; Sup all;
    slice(s, cond->sup, cs, all);
    cs.push_back(cond);
    std::sort(cs.begin(), cs.end(), [](const E* a, const E* b) { return a->id < b->id; });
    std::string key;
    for (auto* e : cs) key.append((const char*)&e->id, 4);
    for (int v = all._Find_first(); v < MAXV; v = all._Find_next(v)) if (X.vars[v].w == 8 && !X.vars[v].undef) { key.append((const char*)&v, 2); key.append((const char*)&s.dom[v], sizeof(Dom)); }
    auto it = qcache.find(key);
    if (it != qcache.end()) { nCacheHits++; return it->second; }
    if (modelSat(s, cs, all, cond)) { nModelHits++; qcache[key] = 1; return true; }
    std::unordered_map<const E*, bool> memo; bool fp = false;
    for (auto* e : cs) fp |= hasFp(e, memo);
    double t = now();
    Z3_solver sv = mkSolver(fp);
    for (auto* e : cs) Z3_solver_assert(ZC, sv, X.toBool(e));
    for (int v = all._Find_first(); v < MAXV; v = all._Find_next(v)) if (X.vars[v].w == 8 && !X.vars[v].undef) Z3_solver_assert(ZC, sv, domAst(v, s.dom[v]));
    Z3_lbool r = Z3_solver_check(ZC, sv);
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ZC, sv); Z3_model_inc_ref(ZC, m);
        std::vector<uint64_t> asg(X.vars.size());
        for (size_t q = 0; q < X.vars.size(); q++) {
            if (!all[q]) { asg[q] = X.vars[q].w == 8 && !X.vars[q].undef && q < s.dom.size() ? s.dom[q]._Find_first() & 255 : 0; continue; }
            Z3_ast x; Z3_model_eval(ZC, m, X.zvar(q), true, &x);
            uint64_t val = 0; Z3_get_numeral_uint64(ZC, x, &val); asg[q] = val;
        }
        Z3_model_dec_ref(ZC, m);
        remember(asg);
    }
    Z3_solver_dec_ref(ZC, sv);
    solverTime += now() - t; nQueries++;
    if (getenv("VP_TRACE")) { const Frame& f = s.fr.back(); std::string is; raw_string_ostream os(is); fns[f.fn].bb[f.bb].in[f.pc].I->print(os); fprintf(stderr, "%s %.3f ncons=%zu %s bb%d: %s\n", r == Z3_L_TRUE ? "sat" : "unsat", now() - t, cs.size(), demangle(fns[f.fn].name).c_str(), f.bb, is.c_str()); }
    if (r == Z3_L_UNDEF) throw Timeout{};
    qcache[key] = r == Z3_L_TRUE;
    return r == Z3_L_TRUE;
}

static bool feasible(const State& s) {
    Z3_solver sv = mkSolver(true);
    for (Cons* c = s.cons.p; c; c = c->next.p) Z3_solver_assert(ZC, sv, X.toBool(c->e));
    for (size_t v = 0; v < s.dom.size(); v++) if (X.vars[v].w == 8 && !X.vars[v].undef) Z3_solver_assert(ZC, sv, domAst(v, s.dom[v]));
    Z3_lbool r = Z3_solver_check(ZC, sv); nQueries++;
    Z3_solver_dec_ref(ZC, sv);
    return r != Z3_L_FALSE;
}
static void addCons(State& s, const E* c) {
    if (c->op == O_CONST) { if (!c->val) unsup("contradictory constraint"); return; }
    if (c->op == O_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    if (c->op == O_XOR && c->b->op == O_CONST && c->a->op == O_OR) { addCons(s, X.lnot(c->a->a)); addCons(s, X.lnot(c->a->b)); return; }
    if (c->uvar >= 0) {
        const uint64_t* t = X.table(c);
        Dom& d = s.dom[c->uvar];
        for (int i = 0; i < 256; i++) if (d[i] && !t[i]) d.reset(i);
        return;
    }
    s.cons = Ref<Cons>(new Cons(c, s.cons));
    s.ent |= c->sup;
}
// does the value depend on the uninitialised byte under the path's constraints?
static bool reallyUndef(const State& s, const E* e) {
    std::vector<const E*> cs; Sup all; slice(s, e->sup, cs, all);
    double t = now();
    Z3_solver sv = mkSolver(true);
    for (auto* x : cs) Z3_solver_assert(ZC, sv, X.toBool(x));
    for (int v = all._Find_first(); v < MAXV; v = all._Find_next(v)) if (X.vars[v].w == 8 && !X.vars[v].undef) Z3_solver_assert(ZC, sv, domAst(v, s.dom[v]));
    Z3_ast a = X.toBV(e), from = nullptr;
    for (size_t i = 0; i < X.vars.size(); i++) if (X.vars[i].undef) from = X.zvar(i);
    Z3_ast to = Z3_mk_const(ZC, Z3_mk_string_symbol(ZC, "undef!other"), Z3_mk_bv_sort(ZC, 8));
    Z3_ast b = Z3_substitute(ZC, a, 1, &from, &to);
    Z3_solver_assert(ZC, sv, Z3_mk_not(ZC, Z3_mk_eq(ZC, a, b)));
    Z3_lbool r = Z3_solver_check(ZC, sv);
    Z3_solver_dec_ref(ZC, sv);
    solverTime += now() - t; nQueries++;
    if (r == Z3_L_UNDEF) throw Timeout{};
    return r == Z3_L_TRUE;
}
// -1 both, 0 false, 1 true
static int decide(State& s, const E* c) {
    if (c->op == O_CONST) return c->val;
    if (c->uvar >= 0) {
        const uint64_t* t = X.table(c);
        const Dom& d = s.dom[c->uvar];
        bool T = false, F = false;
        for (int i = 0; i < 256 && !(T && F); i++) if (d[i]) (t[i] ? T : F) = true;
        nUnary++;
        if (!F) return 1;
        if (!T) return 0;
        return -1;   // possibly infeasible under other constraints; the final check of the path decides
    }
    if (!sat(s, c)) return 0;
    if (!sat(s, X.lnot(c))) return 1;
    if (c->undef && reallyUndef(s, c)) crash("uninit", "control flow depends on uninitialised memory");
    return -1;
}

// ---------------------------------------------------------------- execution
// A region of the execution: the states of it run until they reach its end (a block of one frame, or the
// return of that frame), and are merged there.
typedef std::vector<std::unique_ptr<State>> States;
struct Region {
    int depth, bb; States pending, arrived;
    // the state that entered the region: what leaves it covers exactly that state minus what escaped
    Ref<Cons> cons; std::vector<Dom> dom; bool dirty = false; std::vector<const E*> escaped;
    Region() = default; Region(const Region&) = delete; Region(Region&&) = default;
};
static std::vector<Region> regs;
static bool mergeOn = true;
static uint64_t nMerges, nMergeFail;

static int anyFloat = -1; static std::map<std::string, int> anyFloats; static bool exactPrint;

struct Exec {
    State* S;
    uint64_t stepLimit = 20000000;

    V simp(V v) {  // value fixed by the current domain?
        if (v.e && v.e->uvar >= 0) {
            const uint64_t* t = X.table(v.e);
            const Dom& d = S->dom[v.e->uvar];
            bool first = true; uint64_t x = 0;
            for (int i = d._Find_first(); i < 256; i = d._Find_next(i)) { if (first) { x = t[i]; first = false; } else if (t[i] != x) return v; }
            return cv(x);
        }
        return v;
    }
    // regions for every frame on the stack and for the current branch
    void enterRegions() {
        if (!mergeOn || S->fr.empty()) return;
        int top = regs.back().depth, d = (int)S->fr.size();
        auto enter = [&](int k, int bb) { regs.emplace_back(); Region& r = regs.back(); r.depth = k; r.bb = bb; r.cons = S->cons; r.dom = S->dom; };
        for (int k = top + 1; k <= d; k++) enter(k, -1);
        Fn& fn = fns[S->fr.back().fn];
        int b = S->fr.back().bb, p = fn.ipdom[b];
        auto open = [&](int bb) { for (size_t k = regs.size(); k-- > 0 && regs[k].depth == d;) if (regs[k].bb == bb) return true; return false; };
        // where the branch may start another iteration of a loop before its ends meet, the states also wait for each other there
        for (int h : fn.loopsFrom(b)) {
            if (open(h)) continue;
            int q = p;
            while (q >= 0 && fn.loops[h][q]) q = fn.ipdom[q];
            if (q >= 0 && !open(q)) enter(d, q);
            enter(d, h);
        }
        if (p >= 0 && !open(p)) enter(d, p);
    }
    bool atEnd() const {
        const Region& r = regs.back();
        if (!r.depth) return false;
        int d = (int)S->fr.size();
        if (d < r.depth) return true;
        if (d != r.depth || S->fr.back().pc != 0) return false;
        int bb = S->fr.back().bb;
        for (size_t k = regs.size(); k-- > 0 && regs[k].depth == d;) if (regs[k].bb == bb) return true;
        return false;
    }
    void pushFork(std::unique_ptr<State> o) { enterRegions(); regs.back().pending.push_back(std::move(o)); }
    // fork so that cond becomes decided; re-executes the current instruction
    bool decideFork(const E* c) {
        int d = decide(*S, c);
        if (d >= 0) return d;
        auto o = std::make_unique<State>(*S);
        addCons(*o, X.lnot(c));
        o->forks++;
        pushFork(std::move(o));
        addCons(*S, c);
        S->forks++;
        return true;
    }
    uint64_t concretize(V v, int w) {
        v = simp(v);
        if (!v.e) return v.c;
        if (v.e->undef && reallyUndef(*S, v.e)) crash("uninit", "address or length depends on uninitialised memory");
        // enumerate: pick a feasible value, fork on equality
        const E* e = v.e;
        uint64_t val;
        if (e->uvar >= 0 && !S->ent[e->uvar]) { val = X.table(e)[S->dom[e->uvar]._Find_first()]; }
        else {
            Z3_solver sv = mkSolver(true);
            std::vector<const E*> cs; Sup all; slice(*S, e->sup, cs, all);
            for (auto* x : cs) Z3_solver_assert(ZC, sv, X.toBool(x));
            for (int k = all._Find_first(); k < MAXV; k = all._Find_next(k)) if (X.vars[k].w == 8 && !X.vars[k].undef) Z3_solver_assert(ZC, sv, domAst(k, S->dom[k]));
            double t = now();
            Z3_lbool cr = Z3_solver_check(ZC, sv);
            if (cr != Z3_L_TRUE) { Z3_solver_dec_ref(ZC, sv); if (cr == Z3_L_FALSE) unsup("infeasible path"); throw Timeout{}; }
            solverTime += now() - t; nQueries++;
            Z3_model m = Z3_solver_get_model(ZC, sv); Z3_model_inc_ref(ZC, m);
            Z3_ast r; Z3_model_eval(ZC, m, X.toBV(e), true, &r);
            Z3_get_numeral_uint64(ZC, r, &val);
            Z3_model_dec_ref(ZC, m); Z3_solver_dec_ref(ZC, sv);
        }
        decideFork(X.bin(O_EQ, e, X.constant(val, e->w)));
        return val;  // current state now has e == val
    }

    // ---- memory access
    uint32_t resolve(uint64_t addr, uint64_t size, bool write, uint64_t& off) {
        uint32_t id = (uint32_t)(addr >> 32);
        if (addr < 0x1000) crash("null", "null pointer access");
        Obj* o = S->mem.get(id);
        if (!o || addr >= FNBASE) crash("oob", "wild pointer access");
        off = addr - baseOf(id);
        if (o->freed) crash("uaf", o->kind == 1 ? "access to a dead stack object" : "use after free");
        if ((int64_t)off < 0 || off + size > o->size) crash("oob", "access of " + std::to_string(size) + " bytes at offset " + std::to_string((int64_t)off) + " of a " + std::to_string(o->size) + "-byte " + (o->kind == 0 ? "global" : o->kind == 1 ? "stack" : "heap") + " object");
        if (write && o->ro) crash("oob", "write to constant memory");
        return id;
    }
    const E* byteAt(Obj* o, uint64_t off) {  // symbolic expr or nullptr
        if (o->s.empty()) return nullptr;
        return o->s[off];
    }
    V loadByte(uint64_t addr) {
        uint64_t off; uint32_t id = resolve(addr, 1, false, off);
        Obj* o = S->mem.get(id);
        const E* e = byteAt(o, off);
        if (!e) return cv(o->b[off]);
        if (e == UNDEF) return ev(undefByte());
        return simp(ev(e));
    }
    const E* undefByte() {
        for (size_t i = 0; i < X.vars.size(); i++) if (X.vars[i].undef) return X.varExpr[i];
        const E* e = X.newVar("undef!", 8, true);
        return e;
    }
    V load(uint64_t addr, int w) {
        int nb = (w + 7) / 8;
        uint64_t off; uint32_t id = resolve(addr, nb, false, off);
        Obj* o = S->mem.get(id);
        bool sym = false;
        if (!o->s.empty()) for (int i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
        if (!sym) {
            uint64_t v = 0;
            memcpy(&v, &o->b[off], nb);
            return cv(v & maskw(w));
        }
        // all bytes consecutive extracts of one value?
        const E* first = o->s[off];
        if (first && first != UNDEF) {
            const E* base = first->op == O_EXTRACT && first->val == 0 ? first->a : nullptr;
            if (base && base->w >= nb * 8) {
                bool ok = true;
                for (int i = 1; i < nb && ok; i++) { const E* x = o->s[off + i]; const E* want = X.extract(base, 8 * i, 8);
                    if (want->op == O_CONST) ok = !x && o->b[off + i] == want->val; else ok = x == want; }
                if (ok) return simp(ev(X.extract(base, 0, w)));
            }
        }
        const E* r = nullptr;
        for (int i = 0; i < nb; i++) {
            const E* x = o->s[off + i];
            if (!x) x = X.constant(o->b[off + i], 8);
            else if (x == UNDEF) x = undefByte();
            else { V sv = simp(ev(x)); x = toE(sv, 8); }
            r = r ? X.concat(x, r) : x;
        }
        if (r->w != w) r = X.extract(r, 0, w);
        return simp(ev(r));
    }
    void storeByteAt(Obj* o, uint64_t off, V v) {
        if (v.e) {
            if (o->s.empty()) o->s.assign(o->size, nullptr);
            o->s[off] = v.e;
        } else {
            o->b[off] = (uint8_t)v.c;
            if (!o->s.empty()) o->s[off] = nullptr;
        }
    }
    void store(uint64_t addr, V v, int w) {
        int nb = (w + 7) / 8;
        uint64_t off; uint32_t id = resolve(addr, nb, true, off);
        Obj* o = S->mem.getw(id);
        if (!v.e) {
            uint64_t c = v.c & maskw(w);
            memcpy(&o->b[off], &c, nb);
            if (!o->s.empty()) for (int i = 0; i < nb; i++) o->s[off + i] = nullptr;
            return;
        }
        const E* e = v.e;
        if (e->w < nb * 8) e = X.zext(e, nb * 8);
        for (int i = 0; i < nb; i++) storeByteAt(o, off + i, ev(X.extract(e, 8 * i, 8)));
    }
    void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
        if (!n) return;
        uint64_t so, d; uint32_t si = resolve(src, n, false, so), di = resolve(dst, n, true, d);
        Ref<Obj> hold(S->mem.get(si));
        Obj* s = hold.p;
        if (si == di) {
            std::vector<uint8_t> tb(s->b.begin() + so, s->b.begin() + so + n);
            std::vector<const E*> te; if (!s->s.empty()) te.assign(s->s.begin() + so, s->s.begin() + so + n);
            hold.drop();
            Obj* o = S->mem.getw(di);
            memcpy(&o->b[d], tb.data(), n);
            if (!te.empty()) { for (uint64_t i = 0; i < n; i++) o->s[d + i] = te[i]; }
            return;
        }
        Obj* o = S->mem.getw(di);
        memcpy(&o->b[d], &s->b[so], n);
        if (!s->s.empty()) {
            if (o->s.empty()) o->s.assign(o->size, nullptr);
            std::copy(s->s.begin() + so, s->s.begin() + so + n, o->s.begin() + d);
        } else if (!o->s.empty()) std::fill(o->s.begin() + d, o->s.begin() + d + n, nullptr);
    }
    uint64_t alloc(uint64_t size, int kind, bool zero) {
        Obj* o = new Obj; o->size = size; o->kind = kind; o->b.assign(size, 0);
        if (!zero) o->s.assign(size, UNDEF);
        return baseOf(S->mem.add(Ref<Obj>(o)));
    }
    void freeObj(uint64_t p, const char* what) {
        if (!p) return;
        uint32_t id = p >> 32; Obj* o = S->mem.get(id);
        if (!o || p != baseOf(id) || o->kind != 2) crash("badfree", std::string(what) + " of a non-heap pointer");
        if (o->freed) crash("uaf", "double free");
        Obj* w = S->mem.getw(id); w->freed = true; w->b.clear(); w->s.clear();
    }

    V get(const Opnd& o) {
        if (o.slot >= 0) { V& v = S->slots[S->fr.back().base + o.slot]; return v; }
        if (o.undef) { const E* u = undefByte(); const E* r = u; while (r->w < o.w) r = X.concat(u, r); if (r->w > o.w) r = X.extract(r, 0, o.w); return ev(r); }
        return cv(o.c);
    }
    void set(int slot, V v) { S->slots[S->fr.back().base + slot] = v; }

    void pushFrame(int fn, const std::vector<V>& args, int retDst, int retLeaves, int normalBB) {
        Fn& f = fns[fn];
        f.touched = true;
        if (S->fr.size() > 2000) crash("stack", "stack overflow (call depth > 2000)");
        Frame fr; fr.fn = fn; fr.bb = 0; fr.pc = 0; fr.prevbb = -1; fr.base = S->slots.size();
        fr.retDst = retDst; fr.retLeaves = retLeaves; fr.normalBB = normalBB;
        S->slots.resize(fr.base + f.nslots, V{0, nullptr});
        for (size_t i = 0; i < f.argSlots.size() && i < args.size(); i++) S->slots[fr.base + i] = args[i];
        S->fr.push_back(std::move(fr));
    }
    void gotoBB(int to) {
        Frame& f = S->fr.back();
        Block& b = fns[f.fn].bb[to];
        if (b.hasPhi) {
            auto& mv = b.phis[f.bb];
            std::vector<V> tmp; tmp.reserve(mv.size());
            for (auto& m : mv) tmp.push_back(get(m.src));
            for (size_t i = 0; i < mv.size(); i++) set(mv[i].dst, tmp[i]);
        }
        f.prevbb = f.bb; f.bb = to; f.pc = 0; ctl = true;
    }
    Frame popFrame() {
        Frame fr = std::move(S->fr.back());
        for (auto a : fr.allocas) { Obj* o = S->mem.getw(a); o->freed = true; o->b.clear(); o->s.clear(); }
        S->slots.resize(fr.base);
        S->fr.pop_back(); ctl = true;
        return fr;
    }
    static int selectorOf(uint64_t type) { return type ? (int)(type >> 32) + 1 : 0x7fffffff; }
    // is an exception of type t caught by a handler for type h (0: any)?
    static bool catches(uint64_t h, uint64_t t) {
        if (!h || h == t) return true;
        static std::unordered_map<uint64_t, const GlobalValue*> byAddr;
        if (byAddr.empty()) for (auto& g : gaddr) byAddr[g.second] = g.first;
        auto it = byAddr.find(t);
        if (it == byAddr.end()) return false;
        auto* g = dyn_cast<GlobalVariable>(it->second);
        if (!g) return false;
        if (g->hasInitializer()) {
            auto* s = dyn_cast<ConstantStruct>(g->getInitializer());
            if (!s || s->getNumOperands() < 3) return false;
            if (s->getNumOperands() > 3) unsup("exception of a type with several bases");
            auto* b = dyn_cast<GlobalValue>(s->getOperand(2)->stripPointerCasts());
            return b && catches(h, gaddr.at(b));
        }
        return false;
    }
    // the exception in flight goes to the nearest frame that handles it or cleans up
    void unwind() {
        S->unwinds++;
        auto padOf = [&](size_t k) -> Insn* {
            Frame& f = S->fr[k];
            Insn& in = fns[f.fn].bb[f.bb].in[f.pc];
            return in.opc == Instruction::Invoke ? &fns[f.fn].bb[in.tgt[1]].in[0] : nullptr;
        };
        auto handler = [&](Insn* p) -> int { for (auto c : p->aux) { if (c == -1) unsup("exception specification"); if (catches((uint64_t)c, S->exType)) return selectorOf((uint64_t)c); } return 0; };
        bool any = false;
        for (size_t k = S->fr.size(); k-- > 0 && !any;) { Insn* p = padOf(k); if (p && p->opc != Instruction::LandingPad) unsup("landing pad"); if (p && handler(p)) any = true; }
        if (!any) crash("throw", "uncaught exception");
        for (;;) {
            Insn* p = padOf(S->fr.size() - 1);
            if (p) {
                int h = handler(p);
                if (h || p->sub) { S->exSel = h; Frame& f = S->fr.back(); gotoBB(fns[f.fn].bb[f.bb].in[f.pc].tgt[1]); return; }
            }
            popFrame();
        }
    }
    void throwNew(const std::string& typeName, const std::string& what) {
        for (auto& g : gaddr) if (g.first->getName() == typeName) { S->exPtr = alloc(16, 2, true); S->exType = g.second; unwind(); return; }
        // nothing names the type: only handlers for everything can catch it
        bool handled = false;
        for (auto& f : S->fr) { Insn& in = fns[f.fn].bb[f.bb].in[f.pc]; if (in.opc == Instruction::Invoke) { Insn& p = fns[f.fn].bb[in.tgt[1]].in[0]; for (auto c : p.aux) if (c == 0) handled = true; } }
        if (!handled) crash("throw", what);
        S->exPtr = alloc(16, 2, true); S->exType = ~0ULL; unwind();
    }
    void doRet(const std::vector<V>& vals) {
        Frame fr = popFrame();
        if (S->fr.empty()) { endRun("ok", ""); throw PathEnd{}; }
        Frame& c = S->fr.back();
        if (fr.retDst >= 0) for (size_t i = 0; i < vals.size(); i++) S->slots[c.base + fr.retDst + i] = vals[i];
        if (fr.normalBB >= 0) gotoBB(fr.normalBB);
        else c.pc++;
    }
    // what the current run has done so far
    RunOut& curOut() { if (S->outs.empty() || !S->outs.back().kind.empty()) S->outs.emplace_back(); return S->outs.back(); }
    void endRun(const std::string& kind, const std::string& d) {
        RunOut& o = curOut();
        o.kind = kind; o.detail = d; o.err = S->err; o.out = S->outb; o.outState = S->outState;
        S->err.clear(); S->outb.clear(); S->outState = 0;
    }

    static V arith(unsigned opc, V a, V b, int w) {
        if (!a.e && !b.e) {
            uint64_t m = maskw(w), x = a.c, y = b.c;
            switch (opc) {
            case Instruction::Add: return cv((x + y) & m);
            case Instruction::Sub: return cv((x - y) & m);
            case Instruction::Mul: return cv((x * y) & m);
            case Instruction::And: return cv(x & y);
            case Instruction::Or: return cv(x | y);
            case Instruction::Xor: return cv(x ^ y);
            case Instruction::Shl: return cv(y >= (uint64_t)w ? 0 : (x << y) & m);
            case Instruction::LShr: return cv(y >= (uint64_t)w ? 0 : x >> y);
            case Instruction::AShr: return cv((uint64_t)(sx(x, w) >> (y >= (uint64_t)w ? w - 1 : y)) & m);
            default: break;
            }
        }
        Op op;
        switch (opc) {
        case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break;
        case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break;
        case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break;
        case Instruction::SRem: op = O_SREM; break; case Instruction::And: op = O_AND; break;
        case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break;
        case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break;
        case Instruction::AShr: op = O_ASHR; break; default: unsup("binary op");
        }
        return ev(X.bin(op, toE(a, w), toE(b, w)));
    }
    static V icmp(int p, V a, V b, int w) {
        if (!a.e && !b.e) {
            switch (p) {
            case CmpInst::ICMP_EQ: return cv(a.c == b.c); case CmpInst::ICMP_NE: return cv(a.c != b.c);
            case CmpInst::ICMP_UGT: return cv(a.c > b.c); case CmpInst::ICMP_UGE: return cv(a.c >= b.c);
            case CmpInst::ICMP_ULT: return cv(a.c < b.c); case CmpInst::ICMP_ULE: return cv(a.c <= b.c);
            case CmpInst::ICMP_SGT: return cv(sx(a.c, w) > sx(b.c, w)); case CmpInst::ICMP_SGE: return cv(sx(a.c, w) >= sx(b.c, w));
            case CmpInst::ICMP_SLT: return cv(sx(a.c, w) < sx(b.c, w)); case CmpInst::ICMP_SLE: return cv(sx(a.c, w) <= sx(b.c, w));
            }
        }
        const E *x = toE(a, w), *y = toE(b, w);
        switch (p) {
        case CmpInst::ICMP_EQ: return ev(X.bin(O_EQ, x, y)); case CmpInst::ICMP_NE: return ev(X.lnot(X.bin(O_EQ, x, y)));
        case CmpInst::ICMP_UGT: return ev(X.bin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return ev(X.bin(O_ULE, y, x));
        case CmpInst::ICMP_ULT: return ev(X.bin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return ev(X.bin(O_ULE, x, y));
        case CmpInst::ICMP_SGT: return ev(X.bin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return ev(X.bin(O_SLE, y, x));
        case CmpInst::ICMP_SLT: return ev(X.bin(O_SLT, x, y)); case CmpInst::ICMP_SLE: return ev(X.bin(O_SLE, x, y));
        }
        unsup("icmp");
    }
    void step();
    void call(Insn& in);
    bool intrinsic(Insn& in, const std::string& name, std::vector<V>& a, std::vector<V>& ret);
    bool run();
    bool ctl = false;
    void formatted(const std::string& fmt, const std::function<V(int)>& nextArg, std::vector<V>& out);
    std::string cstr(uint64_t p);
    void cstrBytes(uint64_t p, int64_t max, std::vector<V>& out);
};

std::string Exec::cstr(uint64_t p) {
    std::string r;
    for (;; p++) { V v = loadByte(p); if (v.e) unsup("symbolic C string where a constant is expected"); if (!v.c) return r; r.push_back((char)v.c); }
}
void Exec::cstrBytes(uint64_t p, int64_t max, std::vector<V>& out) {
    for (int64_t i = 0; max < 0 || i < max; i++) {
        V v = loadByte(p + i);
        if (v.e) {
            if (v.e->undef && reallyUndef(*S, v.e)) crash("uninit", "formatted output reads uninitialised memory");
            int d = decide(*S, X.bin(O_EQ, v.e, X.constant(0, 8)));
            if (d < 0) { decideFork(X.bin(O_EQ, v.e, X.constant(0, 8))); throw Fork{}; }
            if (d == 1) return;
        } else if (!v.c) return;
        out.push_back(v);
    }
}
void Exec::formatted(const std::string& f, const std::function<V(int)>& nextArg, std::vector<V>& out) {
    auto puts = [&](const std::string& t) { for (char c : t) out.push_back(cv((uint8_t)c)); };
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { out.push_back(cv((uint8_t)f[i])); continue; }
        i++;
        if (i >= f.size()) break;
        if (f[i] == '%') { out.push_back(cv('%')); continue; }
        std::string spec = "%";
        int64_t prec = -1; bool hasPrec = false;
        while (i < f.size() && strchr("-+ #0123456789", f[i])) spec += f[i++];
        if (i < f.size() && f[i] == '*') { V w = nextArg(32); spec += std::to_string((int)concretize(w, 32)); i++; }
        if (i < f.size() && f[i] == '.') {
            i++; hasPrec = true; prec = 0;
            if (f[i] == '*') { V w = nextArg(32); prec = (int32_t)concretize(w, 32); if (prec < 0) hasPrec = false; i++; }
            else while (isdigit(f[i])) prec = prec * 10 + (f[i++] - '0');
        }
        int lng = 0;
        while (i < f.size() && strchr("hlzjtq", f[i])) { if (f[i] == 'l') lng++; else if (strchr("zjtq", f[i])) lng = 2; i++; }
        char c = i < f.size() ? f[i] : 0;
        char buf[128];
        if (c == 's') {
            V p = nextArg(64);
            uint64_t a = concretize(p, 64);
            if (!a) { if (hasPrec && prec == 0) continue; puts("(null)"); continue; }
            cstrBytes(a, hasPrec ? prec : -1, out);
        } else if (strchr("diuxXoc", c)) {
            V v = simp(nextArg(lng ? 64 : 32));
            if (v.e && exactPrint) {   // few values: one path each
                int w = lng ? 64 : 32;
                const E* x = toE(v, w);
                if (decide(*S, X.bin(O_ULT, x, X.constant(1024, w))) == 1) v = cv(concretize(v, w));
            }
            if (v.e) { puts("<sym>"); continue; }
            spec += "ll"; spec += c;
            uint64_t x = v.c;
            if (c == 'c') { out.push_back(cv((uint8_t)x)); continue; }
            if (!lng) x = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(int32_t)x : (uint32_t)x;
            snprintf(buf, sizeof buf, spec.c_str(), (long long)x);
            puts(buf);
        } else if (strchr("fgeFGEa", c)) { V v = simp(nextArg(64)); if (v.e) { puts("<sym>"); continue; } double d; memcpy(&d, &v.c, 8); spec += c; snprintf(buf, sizeof buf, spec.c_str(), d); puts(buf); }
        else if (c == 'p') { nextArg(64); puts("<ptr>"); }
        else unsup(std::string("printf conversion ") + c);
    }
}

void Exec::call(Insn& in) {
    // callee
    const Function* F = in.callee;
    int cfn = in.cfn;
    size_t off = 0;
    if (!F) {  // indirect; ops.back() is the callee
        uint64_t p = concretize(get(in.ops.back()), 64);
        if (p < FNBASE || ((p - FNBASE) >> 4) >= fnByAddr.size()) crash("oob", "call through a bad function pointer");
        F = fnByAddr[(p - FNBASE) >> 4];
        auto it = fnIdx.find(F);
        cfn = it == fnIdx.end() ? -1 : it->second;
    }
    size_t n = in.ops.size() - (in.callee ? 0 : 1) - off;
    std::vector<V> a; a.reserve(n);
    for (size_t i = 0; i < n; i++) a.push_back(get(in.ops[i]));
    if (cfn >= 0) {
        size_t fixed = fns[cfn].argSlots.size();
        std::vector<V> va; std::vector<int> vaw;
        if (fns[cfn].vararg) for (size_t i = fixed; i < n; i++) { va.push_back(a[i]); vaw.push_back(in.ops[i].w); }
        pushFrame(cfn, a, in.dst, 0, in.tgt.empty() ? -1 : in.tgt[0]);
        S->fr.back().va = std::move(va); S->fr.back().vaw = std::move(vaw);
        return;
    }
    std::vector<V> ret;
    uint64_t inFlight = S->unwinds;
    if (!intrinsic(in, F->getName().str(), a, ret)) unsup("external function " + F->getName().str());
    if (S->unwinds != inFlight) return;
    if (in.dst >= 0) for (size_t i = 0; i < ret.size(); i++) set(in.dst + i, ret[i]);
    if (!in.tgt.empty()) gotoBB(in.tgt[0]); else S->fr.back().pc++;
}

static std::map<int, int> floatOf;  // hole variable -> float variable

bool Exec::intrinsic(Insn& in, const std::string& nm, std::vector<V>& a, std::vector<V>& ret) {
    auto A = [&](int i, int w = 64) { return concretize(a[i], w); };
    StringRef n(nm);
    if (n.starts_with("llvm.")) {
        if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant")) { if (n.starts_with("llvm.invariant.start")) ret.push_back(cv(0)); return true; }
        if (n == "llvm.assume") { return true; }
        if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) { uint64_t d = A(0), s = A(1), l = A(2); copyMem(d, s, l); return true; }
        if (n.starts_with("llvm.memset")) {
            uint64_t d = A(0), l = A(2); if (!l) return true;
            uint64_t o; uint32_t id = resolve(d, l, true, o); Obj* ob = S->mem.getw(id);
            V b = a[1]; if (b.e && b.e->w != 8) b = ev(X.extract(b.e, 0, 8));
            for (uint64_t i = 0; i < l; i++) storeByteAt(ob, o + i, b);
            return true; }
        int w = in.w;
        auto cmpsel = [&](int p) { V c = icmp(p, a[0], a[1], w); const E* r = X.ite(toE(c, 1), toE(a[0], w), toE(a[1], w)); ret.push_back(ev(r)); return true; };
        if (n.starts_with("llvm.umin")) return cmpsel(CmpInst::ICMP_ULT);
        if (n.starts_with("llvm.umax")) return cmpsel(CmpInst::ICMP_UGT);
        if (n.starts_with("llvm.smin")) return cmpsel(CmpInst::ICMP_SLT);
        if (n.starts_with("llvm.smax")) return cmpsel(CmpInst::ICMP_SGT);
        if (n.starts_with("llvm.abs")) { V neg = arith(Instruction::Sub, cv(0), a[0], w); V c = icmp(CmpInst::ICMP_SLT, a[0], cv(0), w); ret.push_back(ev(X.ite(toE(c, 1), toE(neg, w), toE(a[0], w)))); return true; }
        if (n.starts_with("llvm.usub.sat")) { V d = arith(Instruction::Sub, a[0], a[1], w); V c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); ret.push_back(ev(X.ite(toE(c, 1), X.constant(0, w), toE(d, w)))); return true; }
        if (n.starts_with("llvm.fabs")) { ret.push_back(arith(Instruction::And, a[0], cv(maskw(w - 1)), w)); return true; }
        if (n.starts_with("llvm.copysign")) { V x = arith(Instruction::And, a[0], cv(maskw(w - 1)), w); V y = arith(Instruction::And, a[1], cv(1ULL << (w - 1)), w); ret.push_back(arith(Instruction::Or, x, y, w)); return true; }
        if (n.starts_with("llvm.is.fpclass")) {
            uint64_t mask = a[1].c; int fw = in.ops[0].w; const E* x = toE(a[0], fw);
            int mb = fw == 32 ? 23 : 52, eb = fw == 32 ? 8 : 11;
            const E* man = X.extract(x, 0, mb); const E* ex = X.extract(x, mb, eb); const E* sg = X.extract(x, fw - 1, 1);
            const E *m0 = X.bin(O_EQ, man, X.constant(0, mb)), *e0 = X.bin(O_EQ, ex, X.constant(0, eb)), *e1 = X.bin(O_EQ, ex, X.constant(maskw(eb), eb));
            const E* r = X.constant(0, 1); const E* q = X.extract(x, mb - 1, 1);
            auto add = [&](int bit, const E* c) { if (mask >> bit & 1) r = X.bin(O_OR, r, c); };
            const E* ng = sg; const E* ps = X.lnot(sg);
            auto AND = [&](const E* p, const E* s) { return X.bin(O_AND, p, s); };
            add(0, AND(AND(e1, X.lnot(m0)), X.lnot(q))); add(1, AND(e1, q));
            add(2, AND(AND(e1, m0), ng)); add(9, AND(AND(e1, m0), ps));
            add(3, AND(AND(X.lnot(e0), X.lnot(e1)), ng)); add(8, AND(AND(X.lnot(e0), X.lnot(e1)), ps));
            add(4, AND(AND(e0, X.lnot(m0)), ng)); add(7, AND(AND(e0, X.lnot(m0)), ps));
            add(5, AND(AND(e0, m0), ng)); add(6, AND(AND(e0, m0), ps));
            ret.push_back(ev(r)); return true; }
        if (n.starts_with("llvm.expect")) { ret.push_back(a[0]); return true; }
        if (n.starts_with("llvm.is.constant")) { ret.push_back(cv(0)); return true; }
        if (n.starts_with("llvm.objectsize")) { ret.push_back(cv(a[1].c ? 0 : ~0ULL)); return true; }
        if (n.starts_with("llvm.ctpop") || n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz") || n.starts_with("llvm.bswap")) {
            if (a[0].e) {
                const E* x = toE(a[0], w); const E* r = nullptr;
                if (n.starts_with("llvm.bswap")) { for (int i = 0; i < w / 8; i++) { const E* b = X.extract(x, 8 * i, 8); r = r ? X.concat(r, b) : b; } }
                else if (n.starts_with("llvm.ctpop")) { r = X.constant(0, w); for (int i = 0; i < w; i++) r = X.bin(O_ADD, r, X.zext(X.extract(x, i, 1), w)); }
                else { r = X.constant(w, w); bool lz = n.starts_with("llvm.ctlz"); for (int i = 0; i < w; i++) { int k = lz ? i : w - 1 - i; r = X.ite(X.extract(x, k, 1), X.constant(lz ? w - 1 - k : k, w), r); } }
                ret.push_back(ev(r)); return true;
            }
            uint64_t x = a[0].c, r;
            if (n.starts_with("llvm.ctpop")) r = __builtin_popcountll(x);
            else if (n.starts_with("llvm.ctlz")) r = x ? __builtin_clzll(x) - (64 - w) : w;
            else if (n.starts_with("llvm.cttz")) r = x ? __builtin_ctzll(x) : w;
            else r = __builtin_bswap64(x) >> (64 - w);
            ret.push_back(cv(r)); return true; }
        if (n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr")) {
            V sh = arith(Instruction::URem, a[2], cv(w), w); V inv = arith(Instruction::Sub, cv(w), sh, w);
            bool l = n.starts_with("llvm.fshl");
            V hi = arith(Instruction::Shl, a[0], l ? sh : inv, w), lo = arith(Instruction::LShr, a[1], l ? inv : sh, w);
            ret.push_back(arith(Instruction::Or, hi, lo, w)); return true; }
        if (n.contains(".with.overflow")) {
            int iw = in.ops[0].w; const E *x = toE(a[0], iw), *y = toE(a[1], iw); const E *r, *o;
            bool sg = n.starts_with("llvm.s");
            if (n.contains("add")) { r = X.bin(O_ADD, x, y); if (sg) { const E *sxx = X.extract(x, iw - 1, 1), *sy = X.extract(y, iw - 1, 1), *sr = X.extract(r, iw - 1, 1); o = X.bin(O_AND, X.lnot(X.bin(O_XOR, sxx, sy)), X.bin(O_XOR, sxx, sr)); } else o = X.bin(O_ULT, r, x); }
            else if (n.contains("sub")) { r = X.bin(O_SUB, x, y); if (sg) { const E *sxx = X.extract(x, iw - 1, 1), *sy = X.extract(y, iw - 1, 1), *sr = X.extract(r, iw - 1, 1); o = X.bin(O_AND, X.bin(O_XOR, sxx, sy), X.bin(O_XOR, sxx, sr)); } else o = X.bin(O_ULT, x, y); }
            else {
                r = X.bin(O_MUL, x, y);
                if (iw <= 32) { const E *xx = sg ? X.sext(x, 64) : X.zext(x, 64), *yy = sg ? X.sext(y, 64) : X.zext(y, 64); const E* p = X.bin(O_MUL, xx, yy); o = X.lnot(X.bin(O_EQ, p, sg ? X.sext(X.extract(p, 0, iw), 64) : X.zext(X.extract(p, 0, iw), 64))); }
                else if (x->op == O_CONST && y->op == O_CONST) { int64_t t; uint64_t u; o = X.constant(sg ? __builtin_mul_overflow((int64_t)x->val, (int64_t)y->val, &t) : __builtin_mul_overflow(x->val, y->val, &u), 1); }
                else { if (x->op == O_CONST) std::swap(x, y); if (y->op != O_CONST) unsup("64-bit symbolic mul overflow"); uint64_t k = y->val;
                    if (!sg) o = k ? X.bin(O_ULT, X.constant(~0ULL / k, 64), x) : X.constant(0, 1);
                    else { int64_t sk = (int64_t)k; if (sk <= 0) unsup("signed mul overflow"); o = X.bin(O_OR, X.bin(O_SLT, X.constant(INT64_MAX / sk, 64), x), X.bin(O_SLT, x, X.constant((uint64_t)(INT64_MIN / sk), 64))); } }
            }
            ret.push_back(ev(r)); ret.push_back(ev(o)); return true; }
        if (n == "llvm.ubsantrap") crash("ub", "undefined behaviour check " + std::to_string(a[0].c) + " in " + fns[S->fr.back().fn].name);
        if (n == "llvm.trap" || n == "llvm.debugtrap") crash("trap", "trap in " + fns[S->fr.back().fn].name);
        if (n == "llvm.va_start") {
            uint64_t p = A(0);
            store(p, cv(0xFA000000ULL + S->fr.size() - 1), 64); store(p + 8, cv(0), 64); return true; }
        if (n == "llvm.va_copy") { copyMem(A(0), A(1), 24); return true; }
        if (n == "llvm.va_end") return true;
        if (n.starts_with("llvm.eh.typeid.for")) { ret.push_back(cv((uint32_t)selectorOf(A(0)))); return true; }
        if (n == "llvm.stacksave") { ret.push_back(cv(0)); return true; }
        if (n == "llvm.stackrestore") return true;
        if (n.starts_with("llvm.load.relative")) unsup(nm);
        return false;
    }
    // ---- allocation
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
        uint64_t s = A(0);
        if (s > (1ULL << 28)) { if (n == "malloc") { ret.push_back(cv(0)); return true; } { throwNew("_ZTISt9bad_alloc", "std::bad_alloc (request of " + std::to_string(s) + " bytes)"); return true; } }
        ret.push_back(cv(alloc(s, 2, false))); return true; }
    if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { ret.push_back(cv(alloc(A(0), 2, false))); return true; }
    if (n == "calloc") { ret.push_back(cv(alloc(A(0) * A(1), 2, true))); return true; }
    if (n == "realloc") { uint64_t p = A(0), s = A(1); uint64_t q = alloc(s, 2, false); if (p) { Obj* o = S->mem.get(p >> 32); copyMem(q, p, std::min(s, o->size)); freeObj(p, "realloc"); } ret.push_back(cv(q)); return true; }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") { freeObj(A(0), "free"); return true; }
    if (n == "memcpy" || n == "memmove") { uint64_t d = A(0); copyMem(d, A(1), A(2)); ret.push_back(cv(d)); return true; }
    if (n == "bcmp" || n == "memcmp" || n == "strcmp" || n == "strncmp") {
        uint64_t p = A(0), q = A(1); bool str = n.starts_with("str"); uint64_t l = n == "strcmp" ? ~0ULL : A(2);
        if (!str && l <= 256) {
            const E* r = X.constant(0, 32);
            if (l) { uint64_t o1; resolve(p, l, false, o1); resolve(q, l, false, o1); }
            for (uint64_t i = l; i-- > 0;) {
                V x = loadByte(p + i), y = loadByte(q + i);
                if (!x.e && !y.e) { if (x.c != y.c) r = X.constant((uint32_t)(x.c < y.c ? -1 : 1), 32); continue; }
                const E *ex = toE(x, 8), *ey = toE(y, 8);
                r = X.ite(X.bin(O_EQ, ex, ey), r, n == "bcmp" ? X.constant(1, 32) : X.ite(X.bin(O_ULT, ex, ey), X.constant(0xffffffff, 32), X.constant(1, 32)));
            }
            ret.push_back(simp(ev(r))); return true;
        }
        for (uint64_t i = 0; i < l; i++) {
            V x = loadByte(p + i), y = loadByte(q + i);
            if (!x.e && !y.e) { if (x.c != y.c) { ret.push_back(cv((uint32_t)(x.c < y.c ? -1 : 1))); return true; } if (str && !x.c) break; continue; }
            const E *ex = toE(x, 8), *ey = toE(y, 8);
            if (!decideFork(X.bin(O_EQ, ex, ey))) {
                if (n == "bcmp") { ret.push_back(cv(1)); return true; }
                const E* lt = X.bin(O_ULT, ex, ey);
                ret.push_back(ev(X.ite(lt, X.constant(0xffffffff, 32), X.constant(1, 32)))); return true; }
            // equal from here on in this state (decideFork added the constraint); continue the loop
            if (str) { V z = simp(x.e ? x : y); if (z.e) { if (decideFork(X.bin(O_EQ, z.e, X.constant(0, 8)))) break; } else if (!z.c) break; }
        }
        ret.push_back(cv(0)); return true; }
    if (n == "strlen") {
        uint64_t p = A(0), i = 0;
        for (;; i++) { V v = loadByte(p + i); if (v.e) { if (v.e->undef && reallyUndef(*S, v.e)) crash("uninit", "strlen over uninitialised memory"); if (decideFork(X.bin(O_EQ, v.e, X.constant(0, 8)))) break; } else if (!v.c) break; }
        ret.push_back(cv(i)); return true; }
    if (n == "memchr" || n == "strchr") {
        uint64_t p = A(0), l = n == "memchr" ? A(2) : ~0ULL; V c = a[1]; if (c.e) c = ev(X.extract(c.e, 0, 8)); else c.c &= 255; bool str = n == "strchr";
        for (uint64_t i = 0; i < l; i++) {
            V v = loadByte(p + i);
            if (decideFork(toE(icmp(CmpInst::ICMP_EQ, v, c, 8), 1))) { ret.push_back(cv(p + i)); return true; }
            if (str && decideFork(toE(icmp(CmpInst::ICMP_EQ, v, cv(0), 8), 1))) break;
        }
        ret.push_back(cv(0)); return true; }
    // ---- process exit / diagnostics
    if (n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit") { V c = simp(a[0]); uint64_t code = concretize(c, 32); curOut().code = (int32_t)code; endRun("exit", ""); throw PathEnd{}; }
    if (n == "abort") crash("abort", "abort()");
    if (n == "__assert_fail") { std::string x; try { x = cstr(a[0].c); } catch (Unsupported&) {} crash("abort", "assertion failed: " + x); }
    if (n == "_ZSt9terminatev" || n == "__cxa_pure_virtual") crash("abort", "std::terminate");
    if (n.starts_with("_ZSt") && n.contains("__throw_")) {
        static const std::map<std::string, std::string> ty{{"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"logic_error", "_ZTISt11logic_error"},
            {"runtime_error", "_ZTISt13runtime_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"bad_optional_access", "_ZTISt19bad_optional_access"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_variant_access", "_ZTISt18bad_variant_access"}};
        std::string best; size_t bl = 0;
        for (auto& k : ty) if (n.contains("__throw_" + k.first) && k.first.size() > bl) { best = k.second; bl = k.first.size(); }
        throwNew(best, nm); return true; }
    if (n == "__cxa_allocate_exception") { ret.push_back(cv(alloc(A(0), 2, true))); return true; }
    if (n == "__cxa_free_exception") { freeObj(A(0), "free"); return true; }
    if (n == "__cxa_throw") { S->exPtr = A(0); S->exType = A(1); unwind(); return true; }
    if (n == "__cxa_rethrow") { if (S->caught.empty()) crash("throw", nm); S->exPtr = S->caught.back().first; S->exType = S->caught.back().second; unwind(); return true; }
    if (n == "_Unwind_Resume") { unwind(); return true; }
    if (n == "__cxa_begin_catch") { S->caught.push_back({S->exPtr, S->exType}); ret.push_back(cv(A(0))); return true; }
    if (n == "__cxa_get_exception_ptr") { ret.push_back(cv(A(0))); return true; }
    if (n == "__cxa_end_catch") { if (!S->caught.empty()) S->caught.pop_back(); return true; }
    if (n == "__cxa_call_unexpected" || n == "__clang_call_terminate") crash("abort", "std::terminate");
    if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") crash("abort", "libstdc++ assertion");
    if (n == "__cxa_atexit" || n == "atexit") { ret.push_back(cv(0)); return true; }
    if (n == "__cxa_guard_acquire") { V v = loadByte(A(0)); ret.push_back(cv(!v.c)); return true; }
    if (n == "__cxa_guard_release") { store(A(0), cv(1), 8); return true; }
    if (n == "__errno_location") { for (auto& g : gaddr) if (g.first->getName() == "vp_errno") { ret.push_back(cv(g.second)); return true; } unsup("errno"); }
    // ---- formatted output
    bool fpr = n == "fprintf" || n == "printf" || n == "snprintf" || n == "sprintf" || n == "dprintf";
    bool vfpr = n == "vfprintf" || n == "vprintf" || n == "vsnprintf" || n == "vsprintf";
    if (fpr || vfpr) {
        bool sn = n.ends_with("snprintf"), sp = n.ends_with("sprintf") && !sn;
        int fi = sn ? 2 : (n == "printf" || n == "vprintf") ? 0 : 1;
        uint64_t fp = A(fi);
        std::vector<V> out;
        if (fp) {
            std::string fmt = cstr(fp);
            if (fpr) {
                size_t k = fi + 1;
                formatted(fmt, [&](int) -> V { if (k >= a.size()) crash("oob", "printf reads a missing argument"); return a[k++]; }, out);
            } else {
                uint64_t va = A(fi + 1);
                V fidx = load(va, 64);
                if (fidx.e || (fidx.c >> 24) != 0xFA) unsup("va_list");
                Frame& f = S->fr[fidx.c & 0xffffff];
                size_t k = 0;
                auto vals = f.va;
                formatted(fmt, [&](int) -> V { if (k >= vals.size()) crash("oob", "printf reads a missing argument"); return vals[k++]; }, out);
            }
        }
        if (sn || sp) {
            uint64_t dst = A(0), sz = sn ? A(1) : ~0ULL;
            for (uint64_t i = 0; i < out.size() && i + 1 < sz; i++) store(dst + i, out[i], 8);
            if (sz) store(dst + std::min<uint64_t>(out.size(), sz - 1), cv(0), 8);
        } else for (auto& v : out) S->err.push_back(v);
        ret.push_back(cv((uint32_t)out.size()));
        return true; }
    if (n == "fputs" || n == "puts") { std::vector<V> o; cstrBytes(A(0), -1, o); for (auto& v : o) S->err.push_back(v); ret.push_back(cv(1)); return true; }
    if (n == "fputc" || n == "putc" || n == "putchar") { V v = a[0]; if (v.e) v = ev(X.extract(v.e, 0, 8)); else v.c &= 255; S->err.push_back(v); ret.push_back(a[0]); return true; }
    if (n == "fwrite") { uint64_t p = A(0), l = A(1) * A(2); for (uint64_t i = 0; i < l; i++) S->err.push_back(loadByte(p + i)); ret.push_back(a[2]); return true; }
    if (n == "fflush") { ret.push_back(cv(0)); return true; }
    // ---- libstdc++ hash tables
    if (n == "_ZSt11_Hash_bytesPKvmm") {
        // any function of the bytes is a valid hash; a constant keeps symbolic keys exact
        ret.push_back(cv(0x9E3779B97F4A7C15ULL)); return true; }
    // ---- verification primitives
    if (n == "vp_result") {
        uint64_t p = A(0), l = A(1);
        curOut();
        for (uint64_t i = 0; i < l; i++) { V v = load(p + 8 * i, 64); if (v.e && v.e->undef && reallyUndef(*S, v.e)) crash("uninit", "output word depends on uninitialised memory"); S->outs.back().words.push_back(v); }
        return true; }
    if (n == "vp_outbyte") { V v = a[0]; if (v.e && v.e->w != 8) v = ev(X.extract(v.e, 0, 8)); S->outb.push_back(v); return true; }
    if (n == "vp_outstate") { S->outState = (int)A(0, 32); return true; }
    if (n == "vp_unsupported") unsup(cstr(A(0)));
    if (n == "vp_digit") {  // value of an alphanumeric digit, 99 for anything else; no branching
        const E* c = toE(simp(a[0]), 32);
        const E* d = X.bin(O_SUB, c, X.constant('0', 32)), *l = X.bin(O_SUB, X.bin(O_OR, c, X.constant(32, 32)), X.constant('a', 32));
        ret.push_back(ev(X.ite(X.bin(O_ULT, d, X.constant(10, 32)), d, X.ite(X.bin(O_ULT, l, X.constant(26, 32)), X.bin(O_ADD, l, X.constant(10, 32)), X.constant(99, 32)))));
        return true; }
    if (n == "vp_crash") crash("abort", cstr(A(0)));
    if (n == "vp_note") { int k = (int)A(0, 32); S->notes.push_back({k, (int64_t)A(1)}); return true; }
    if (n == "vp_var") {  // existing 8-bit variable by name
        std::string nme = cstr(A(0));
        for (size_t i = 0; i < X.vars.size(); i++) if (X.vars[i].name == nme) { V v = simp(ev(X.varExpr[i])); ret.push_back(v.e ? ev(X.zext(v.e, 32)) : v); return true; }
        ret.push_back(cv(0)); return true; }
    if (n == "vp_hasvar") { std::string nme = cstr(A(0)); uint64_t r = 0; for (auto& v : X.vars) if (v.name == nme) r = 1; ret.push_back(cv(r)); return true; }
    if (n == "vp_is_symbolic") { V v = loadByte(A(0)); ret.push_back(cv(v.e ? 1 : 0)); return true; }
    if (n == "vp_float") {
        // vp_float(ptr, len, negative): the value of a floating literal; the same bytes give the same value
        uint64_t p = A(0), l = A(1); bool neg = A(2, 32);
        std::string txt; bool sym = false;
        for (uint64_t i = 0; i < l; i++) { V v = loadByte(p + i); if (v.e) sym = true; else txt.push_back((char)v.c); }
        if (!sym) { float f = strtof(txt.c_str(), nullptr); uint32_t u; memcpy(&u, &f, 4); ret.push_back(cv(u)); return true; }
        // the magnitude is the variable that belongs to the literal's float hole, the sign is the text's
        int var = -1;
        for (uint64_t i = 0; i < l; i++) { V v = loadByte(p + i); if (v.e) for (int q = v.e->sup._Find_first(); q < MAXV; q = v.e->sup._Find_next(q)) { auto it = floatOf.find(q); if (it != floatOf.end()) var = it->second; } }
        if (var < 0) {
            // one variable selects the text: tabulate
            int u = -1; bool ok = true; std::vector<const E*> be(l, nullptr); std::vector<uint8_t> bc(l);
            for (uint64_t i = 0; i < l; i++) { V v = loadByte(p + i); be[i] = v.e; bc[i] = (uint8_t)v.c; if (v.e) { if (v.e->uvar < 0 || (u >= 0 && u != v.e->uvar)) ok = false; u = v.e->uvar; } }
            if (!ok && anyFloat >= 0) {   // any value whatsoever, the same for the same text
                std::string key;
                for (uint64_t i = 0; i < l; i++) { V v = loadByte(p + i); uint64_t id = v.e ? v.e->id + 256 : v.c; key.append((const char*)&id, 8); }
                auto it = anyFloats.find(key);
                if (it == anyFloats.end()) { if (anyFloats.size() >= 64) unsup("too many symbolic floating literals"); it = anyFloats.emplace(key, anyFloat + (int)anyFloats.size()).first; }
                ret.push_back(ev(X.concat(X.constant(neg, 1), X.extract(X.varExpr[it->second], 0, 31)))); return true;
            }
            if (!ok) unsup("symbolic floating literal");
            std::vector<uint64_t> t(256, 0);
            for (int x = 0; x < 256; x++) if (X.vars[u].dom[x]) {
                std::string q; for (uint64_t i = 0; i < l; i++) q.push_back((char)(be[i] ? X.table(be[i])[x] : bc[i]));
                char* e2; float f = strtof(q.c_str(), &e2); uint32_t w; memcpy(&w, &f, 4);
                if (*e2 && S->dom[u][x]) unsup("floating literal");
                t[x] = w;
            }
            ret.push_back(simp(ev(X.tableExpr(u, t, 32)))); return true;
        }
        ret.push_back(ev(X.concat(X.constant(neg, 1), X.extract(X.varExpr[var], 0, 31)))); return true; }
    return false;
}

static const bool traceForks = getenv("VP_FORKS") != nullptr;
static std::map<std::string, int> forkSites;
void Exec::step() {
    Frame& f = S->fr.back();
    Insn& in = fns[f.fn].bb[f.bb].in[f.pc];
    if (getenv("VP_STEPS") && S->steps % 100000 == 0) { for (auto& q : S->fr) fprintf(stderr, "%s bb%d | ", demangle(fns[q.fn].name).substr(0, 40).c_str(), q.bb); fprintf(stderr, "regs %zu pend %zu\n", regs.size(), regs.back().pending.size()); }
    if (++S->steps > stepLimit) crash("hang", "step limit " + std::to_string(stepLimit) + " exceeded");
    switch (in.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        set(in.dst, arith(in.opc, get(in.ops[0]), get(in.ops[1]), in.w)); f.pc++; return;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        V b = get(in.ops[1]);
        if (!b.e && !b.c) crash("ub", "division by zero");
        if (b.e && decideFork(X.bin(O_EQ, b.e, X.constant(0, in.w)))) crash("ub", "division by zero");
        set(in.dst, arith(in.opc, get(in.ops[0]), b, in.w)); S->fr.back().pc++; return; }
    case Instruction::ICmp: set(in.dst, icmp(in.sub, get(in.ops[0]), get(in.ops[1]), in.w2)); f.pc++; return;
    case Instruction::FCmp: set(in.dst, ev(X.fbin(O_FCMP, toE(get(in.ops[0]), in.w2), toE(get(in.ops[1]), in.w2), in.sub))); f.pc++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        Op o = in.opc == Instruction::FAdd ? O_FADD : in.opc == Instruction::FSub ? O_FSUB : in.opc == Instruction::FMul ? O_FMUL : O_FDIV;
        set(in.dst, ev(X.fbin(o, toE(get(in.ops[0]), in.w), toE(get(in.ops[1]), in.w)))); f.pc++; return; }
    case Instruction::FNeg: set(in.dst, arith(Instruction::Xor, get(in.ops[0]), cv(1ULL << (in.w - 1)), in.w)); f.pc++; return;
    case Instruction::SIToFP: set(in.dst, ev(X.un(O_SITOFP, toE(get(in.ops[0]), in.w2), in.w))); f.pc++; return;
    case Instruction::UIToFP: set(in.dst, ev(X.un(O_UITOFP, toE(get(in.ops[0]), in.w2), in.w))); f.pc++; return;
    case Instruction::FPExt: set(in.dst, ev(X.un(O_FPEXT, toE(get(in.ops[0]), in.w2), in.w))); f.pc++; return;
    case Instruction::FPTrunc: {
        V a = get(in.ops[0]);
        // fptrunc(fpext x) == x for every x that is not a signalling NaN
        if (a.e && a.e->op == O_FPEXT && a.e->a->w == in.w) set(in.dst, ev(a.e->a));
        else set(in.dst, ev(X.un(O_FPTRUNC, toE(a, in.w2), in.w)));
        f.pc++; return; }
    case Instruction::FPToSI: set(in.dst, ev(X.un(O_FPTOSI, toE(get(in.ops[0]), in.w2), in.w))); f.pc++; return;
    case Instruction::FPToUI: set(in.dst, ev(X.un(O_FPTOUI, toE(get(in.ops[0]), in.w2), in.w))); f.pc++; return;
    case Instruction::ZExt: { V a = get(in.ops[0]); set(in.dst, a.e ? ev(X.zext(a.e, in.w)) : a); f.pc++; return; }
    case Instruction::SExt: { V a = get(in.ops[0]); set(in.dst, a.e ? ev(X.sext(a.e, in.w)) : cv((uint64_t)sx(a.c, in.w2) & maskw(in.w))); f.pc++; return; }
    case Instruction::Trunc: { V a = get(in.ops[0]); set(in.dst, a.e ? ev(X.extract(a.e, 0, in.w)) : cv(a.c & maskw(in.w))); f.pc++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
        V a = get(in.ops[0]);
        if (in.w < in.w2) a = a.e ? ev(X.extract(a.e, 0, in.w)) : cv(a.c & maskw(in.w));
        else if (a.e) a = ev(X.zext(a.e, in.w));
        set(in.dst, a); f.pc++; return; }
    case Instruction::BitCast: case Instruction::Freeze:
        for (size_t i = 0; i < in.ops.size(); i++) set(in.dst + i, get(in.ops[i])); f.pc++; return;
    case Instruction::Select: {
        V c = get(in.ops[0]);
        int n = (in.ops.size() - 1) / 2;
        if (c.e) { c = simp(c); if (c.e) { int d = decide(*S, c.e); if (d >= 0) c = cv(d); } }
        if (!c.e) { for (int i = 0; i < n; i++) set(in.dst + i, get(in.ops[1 + (c.c ? 0 : n) + i])); f.pc++; return; }
        if (in.ptr || n != 1) { bool t = decideFork(c.e); for (int i = 0; i < n; i++) set(in.dst + i, get(in.ops[1 + (t ? 0 : n) + i])); S->fr.back().pc++; return; }
        V x = get(in.ops[1]), y = get(in.ops[2]);
        set(in.dst, ev(X.ite(c.e, toE(x, in.w), toE(y, in.w)))); f.pc++; return; }
    case Instruction::Alloca: {
        uint64_t n = in.sub;
        if (!in.ops.empty()) n *= concretize(get(in.ops[0]), 64);
        uint64_t p = alloc(n, 1, false);
        S->fr.back().allocas.push_back(p >> 32);
        set(in.dst, cv(p)); S->fr.back().pc++; return; }
    case Instruction::Load: {
        uint64_t p = concretize(get(in.ops[0]), 64);
        size_t n = in.aux.size() / 2;
        for (size_t i = 0; i < n; i++) set(in.dst + i, load(p + in.aux[2 * i], in.aux[2 * i + 1]));
        S->fr.back().pc++; return; }
    case Instruction::Store: {
        uint64_t p = concretize(get(in.ops.back()), 64);
        size_t n = in.aux.size() / 2;
        for (size_t i = 0; i < n; i++) store(p + in.aux[2 * i], get(in.ops[i]), in.aux[2 * i + 1]);
        S->fr.back().pc++; return; }
    case Instruction::GetElementPtr: {
        V p = get(in.ops[0]);
        p = arith(Instruction::Add, p, cv(in.aux[0]), 64);
        for (size_t i = 1; i < in.ops.size(); i++) {
            V ix = get(in.ops[i]);
            int w = in.ops[i].w;
            if (w < 64) ix = ix.e ? ev(X.sext(ix.e, 64)) : cv((uint64_t)sx(ix.c, w));
            p = arith(Instruction::Add, p, arith(Instruction::Mul, ix, cv(in.aux[i]), 64), 64);
        }
        set(in.dst, p); f.pc++; return; }
    case Instruction::Br: {
        if (in.ops.empty()) { gotoBB(in.tgt[0]); return; }
        V c = get(in.ops[0]);
        bool t;
        if (!c.e) t = c.c & 1;
        else {
            int d = decide(*S, c.e);
            if (d >= 0) t = d;
            else {
                enterRegions();
                if (traceForks) forkSites[demangle(fns[f.fn].name) + " bb" + std::to_string(f.bb)]++;
                auto o = std::make_unique<State>(*S);
                addCons(*o, X.lnot(c.e)); o->forks++;
                State* keep = S; S = o.get(); gotoBB(in.tgt[1]); S = keep;
                addCons(*S, c.e); S->forks++;
                regs.back().pending.push_back(std::move(o));
                t = true;
            }
        }
        gotoBB(in.tgt[t ? 0 : 1]); return; }
    case Instruction::Switch: {
        V c = simp(get(in.ops[0]));
        if (!c.e) {
            for (size_t i = 0; i < in.aux.size(); i++) if ((uint64_t)in.aux[i] == c.c) { gotoBB(in.tgt[i + 1]); return; }
            gotoBB(in.tgt[0]); return;
        }
        for (size_t i = 0; i < in.aux.size(); i++) if (decideFork(X.bin(O_EQ, c.e, X.constant(in.aux[i], in.w)))) { gotoBB(in.tgt[i + 1]); return; }
        gotoBB(in.tgt[0]); return; }
    case Instruction::Call: case Instruction::Invoke: call(in); return;
    case Instruction::Ret: { std::vector<V> v; for (auto& o : in.ops) v.push_back(get(o)); doRet(v); return; }
    case Instruction::ExtractValue: for (int i = 0; i < in.sub; i++) set(in.dst + i, get(in.ops[i])); f.pc++; return;
    case Instruction::InsertValue: for (size_t i = 0; i < in.ops.size(); i++) set(in.dst + i, get(in.ops[i])); f.pc++; return;
    case Instruction::Unreachable: crash("ub", "unreachable code reached in " + fns[f.fn].name);
    case Instruction::Fence: f.pc++; return;
    case Instruction::LandingPad: set(in.dst, cv(S->exPtr)); set(in.dst + 1, cv((uint32_t)S->exSel)); f.pc++; return;
    case Instruction::Resume: popFrame(); unwind(); return;
    default: unsup(std::string("instruction ") + in.I->getOpcodeName());
    }
}
// runs until the end of the innermost region (true) or the end of the run (PathEnd)
bool Exec::run() {
    for (;;) {
        try { for (;;) { step(); if (ctl) { ctl = false; if (regs.size() > 1 && atEnd()) return true; } } }
        catch (Fork&) { continue; }
    }
}

// ---------------------------------------------------------------- predecode
static void leaves(Type* t, uint64_t off, std::vector<std::pair<uint64_t, Type*>>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * DL->getTypeAllocSize(at->getElementType()), out); }
    else out.push_back({off, t});
}
static int widthOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth() > 64 ? -1 : t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return -1;
}
static void constBytes(const Constant* C, std::vector<uint8_t>& b, uint64_t off);
static uint64_t constVal(const Constant* C, bool& undef) {
    undef = false;
    if (auto* ci = dyn_cast<ConstantInt>(C)) return ci->getValue().getActiveBits() > 64 ? 0 : ci->getZExtValue();
    if (auto* cf = dyn_cast<ConstantFP>(C)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(C)) return 0;
    if (isa<UndefValue>(C)) { undef = true; return 0; }
    if (auto* g = dyn_cast<GlobalValue>(C)) { if (auto* ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee(), undef); auto it = gaddr.find(g); if (it == gaddr.end()) unsup("global " + g->getName().str()); return it->second; }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) unsup("constant gep");
            return constVal(cast<Constant>(ce->getOperand(0)), undef) + off.getSExtValue();
        }
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) return constVal(cast<Constant>(ce->getOperand(0)), undef);
        bool u1, u2;
        if (ce->getOpcode() == Instruction::Sub) return constVal(cast<Constant>(ce->getOperand(0)), u1) - constVal(cast<Constant>(ce->getOperand(1)), u2);
        if (ce->getOpcode() == Instruction::Add) return constVal(cast<Constant>(ce->getOperand(0)), u1) + constVal(cast<Constant>(ce->getOperand(1)), u2);
        if (ce->getOpcode() == Instruction::Trunc) return constVal(cast<Constant>(ce->getOperand(0)), u1) & maskw(widthOf(ce->getType()));
        unsup("constant expression");
    }
    unsup("constant");
}
static void constLeaves(const Constant* C, std::vector<Opnd>& out) {
    Type* t = C->getType();
    if (t->isStructTy() || t->isArrayTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) constLeaves(C->getAggregateElement(i), out);
        return;
    }
    Opnd o; o.slot = -1; o.w = std::max(widthOf(t), 1); o.c = constVal(C, o.undef); o.c &= maskw(o.w); out.push_back(o);
}
static void constBytes(const Constant* C, std::vector<uint8_t>& b, uint64_t off) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(&b[off], r.data(), r.size()); return; }
    if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) constBytes(C->getAggregateElement(i), b, off + sl->getElementOffset(i)); return; }
    if (t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) constBytes(C->getAggregateElement(i), b, off + i * es); return; }
    bool u; uint64_t v = constVal(C, u); memcpy(&b[off], &v, DL->getTypeStoreSize(t));
}

static void postDominators(Fn& fn) {
    int n = fn.bb.size();
    fn.ipdom.assign(n, -1);
    fn.loopsOf.assign(n, {});
    if (n > 4000) return;
    DominatorTree dt(const_cast<Function&>(*fn.F));
    LoopInfo li(dt);
    std::unordered_map<const BasicBlock*, int> id;
    for (auto& B : *fn.F) { int k = id.size(); id[&B] = k; }
    for (Loop* L : li.getLoopsInPreorder()) {
        int h = id[L->getHeader()];
        auto& body = fn.loops[h]; body.assign(n, false);
        for (auto* B : L->blocks()) { body[id[B]] = true; fn.loopsOf[id[B]].push_back(h); }
    }
    auto succ = [&](int b) -> const std::vector<int>& { return fn.bb[b].in.back().tgt; };
    std::vector<std::vector<int>> pred(n);
    std::vector<bool> reach(n, false); std::vector<int> todo;
    for (int b = 0; b < n; b++) {
        for (auto& in : fn.bb[b].in) (void)in;
        for (int t : succ(b)) pred[t].push_back(b);
        if (fn.bb[b].in.back().opc == Instruction::Ret) { reach[b] = true; todo.push_back(b); }
    }
    while (!todo.empty()) { int b = todo.back(); todo.pop_back(); for (int p : pred[b]) if (!reach[p]) { reach[p] = true; todo.push_back(p); } }
    std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
    for (int b = 0; b < n; b++) if (fn.bb[b].in.back().opc == Instruction::Ret) { pd[b].assign(n, false); pd[b][b] = true; }
    bool ch = true;
    while (ch) {
        ch = false;
        for (int b = n; b-- > 0;) {
            if (!reach[b] || fn.bb[b].in.back().opc == Instruction::Ret) continue;
            std::vector<bool> x(n, true);
            for (int t : succ(b)) if (reach[t]) for (int i = 0; i < n; i++) if (!pd[t][i]) x[i] = false;
            x[b] = true;
            if (x != pd[b]) { pd[b] = x; ch = true; }
        }
    }
    std::vector<int> cnt(n);
    for (int b = 0; b < n; b++) cnt[b] = std::count(pd[b].begin(), pd[b].end(), true);
    for (int b = 0; b < n; b++) if (reach[b]) for (int p = 0; p < n; p++) if (p != b && pd[b][p] && cnt[p] == cnt[b] - 1) fn.ipdom[b] = p;
}
static void liveness(Fn& fn) {
    if (fn.live) return;
    fn.live = true;
    int n = fn.bb.size();
    std::vector<std::vector<bool>> in(n, std::vector<bool>(fn.nslots, false));
    fn.liveOut = in;
    // upward-exposed uses; SSA, so a use is exposed unless defined earlier in the block
    std::vector<std::vector<bool>> use(n, std::vector<bool>(fn.nslots, false)), def = use;
    for (int b = 0; b < n; b++) {
        if (fn.bb[b].hasPhi) for (auto& pm : fn.bb[b].phis) for (auto& m : pm.second) def[b][m.dst] = true;
        for (auto& i : fn.bb[b].in) {
            for (auto& o : i.ops) if (o.slot >= 0 && !def[b][o.slot]) use[b][o.slot] = true;
            if (i.dst >= 0) for (int k = i.dst; k < i.dst + std::max(1, i.nleaf); k++) def[b][k] = true;
        }
    }
    bool ch = true;
    while (ch) {
        ch = false;
        for (int b = n; b-- > 0;) {
            std::vector<bool>& out = fn.liveOut[b];
            for (int t : fn.bb[b].in.back().tgt) {
                for (int s = 0; s < fn.nslots; s++) if (in[t][s]) out[s] = true;
                auto it = fn.bb[t].phis.find(b);
                if (it != fn.bb[t].phis.end()) for (auto& m : it->second) if (m.src.slot >= 0) out[m.src.slot] = true;
            }
            for (int s = 0; s < fn.nslots; s++) { bool x = use[b][s] || (out[s] && !def[b][s]); if (x && !in[b][s]) { in[b][s] = true; ch = true; } }
        }
    }
}
static std::map<std::array<int, 3>, std::vector<bool>> liveCache;
static const std::vector<bool>& liveAt(int fi, int bb, int pc) {
    std::array<int, 3> k{fi, bb, pc};
    auto it = liveCache.find(k); if (it != liveCache.end()) return it->second;
    Fn& fn = fns[fi]; liveness(fn);
    std::vector<bool> r = fn.liveOut[bb];
    for (size_t i = pc; i < fn.bb[bb].in.size(); i++) for (auto& o : fn.bb[bb].in[i].ops) if (o.slot >= 0) r[o.slot] = true;
    return liveCache[k] = r;
}

// ---------------------------------------------------------------- merging
static bool pointerLike(const Mem& m, uint64_t v) {
    if (v >= FNBASE) return v < FNBASE + (fnByAddr.size() << 4);
    Obj* o = m.get((uint32_t)(v >> 32));
    return o && v - baseOf((uint32_t)(v >> 32)) <= o->size;
}
static std::map<std::pair<int, std::string>, const E*> domMemo;
static const E* domExpr(int v, const Dom& d) {  // v in d
    const E*& memo = domMemo[{v, d.to_string()}];
    if (memo) return memo;
    std::vector<uint64_t> t(256);
    for (int i = 0; i < 256; i++) t[i] = d[i];
    return memo = X.tableExpr(v, t, 1);
}
// merge b into a; false: they stay apart
static bool tryMerge(State& a, State& b) {
    if (a.fr.size() != b.fr.size() || a.slots.size() != b.slots.size() || a.outs.size() != b.outs.size() || a.err.size() != b.err.size() || a.outb.size() != b.outb.size() || a.outState != b.outState || a.exPtr != b.exPtr || a.exSel != b.exSel || a.caught != b.caught) return false;
    auto same = [](const std::vector<V>& x, const std::vector<V>& y) { for (size_t i = 0; i < x.size(); i++) if (x[i].c != y[i].c || x[i].e != y[i].e) return false; return true; };
    if (!same(a.err, b.err) || !same(a.outb, b.outb)) return false;
    for (size_t i = 0; i < a.outs.size(); i++) {
        auto &x = a.outs[i], &y = b.outs[i];
        if (x.kind != y.kind || x.code != y.code || x.words.size() != y.words.size() || x.err.size() != y.err.size() || x.out.size() != y.out.size() || x.outState != y.outState || !same(x.words, y.words) || !same(x.err, y.err) || !same(x.out, y.out)) return false;
    }
    for (size_t i = 0; i < a.fr.size(); i++) {
        const Frame &x = a.fr[i], &y = b.fr[i];
        if (x.fn != y.fn || x.bb != y.bb || x.pc != y.pc || x.base != y.base || x.retDst != y.retDst || x.normalBB != y.normalBB || x.allocas != y.allocas || x.va.size() != y.va.size() || x.vaw != y.vaw || !same(x.va, y.va)) return false;
    }
    // memory differences, by aligned 8-byte words
    struct Diff { uint32_t id; uint64_t off; };
    std::vector<Diff> diffs;
    uint32_t mx = std::max(a.mem.n, b.mem.n);
    static Obj gone; gone.freed = true;
    for (uint32_t c = 0; c * CH < mx; c++) {
        Chunk* ca = c < a.mem.ch.size() ? a.mem.ch[c].p : nullptr; Chunk* cb = c < b.mem.ch.size() ? b.mem.ch[c].p : nullptr;
        if (ca == cb) continue;
        for (int i = 0; i < CH; i++) {
            Obj* x = ca ? ca->o[i].p : nullptr; Obj* y = cb ? cb->o[i].p : nullptr;
            if (x == y) continue;
            if (!x) x = &gone; if (!y) y = &gone;
            if (x->freed && y->freed) continue;
            if (x->freed != y->freed || x->size != y->size || x->kind != y->kind) return false;
            for (uint64_t o = 0; o < x->size; o += 8) {
                uint64_t m = std::min<uint64_t>(8, x->size - o);
                bool d = memcmp(&x->b[o], &y->b[o], m) != 0;
                // stale concrete bytes under symbolic ones do not count
                bool sx_ = !x->s.empty(), sy = !y->s.empty();
                if (sx_ || sy) { d = false; for (uint64_t k = o; k < o + m && !d; k++) { const E *ex = sx_ ? x->s[k] : nullptr, *ey = sy ? y->s[k] : nullptr; if (ex != ey || (!ex && x->b[k] != y->b[k])) d = true; } }
                if (!d) continue;
                if (m == 8) {
                    bool ca_ = true, cb_ = true;
                    if (sx_) for (int k = 0; k < 8; k++) if (x->s[o + k]) ca_ = false;
                    if (sy) for (int k = 0; k < 8; k++) if (y->s[o + k]) cb_ = false;
                    uint64_t va, vb; memcpy(&va, &x->b[o], 8); memcpy(&vb, &y->b[o], 8);
                    if ((ca_ && pointerLike(a.mem, va)) || (cb_ && pointerLike(b.mem, vb))) return false;
                }
                diffs.push_back({c * CH + i, o});
                if (diffs.size() > 64) return false;
            }
        }
    }
    std::vector<size_t> sd;
    std::vector<uint8_t> sdw;
    for (size_t i = 0; i < a.fr.size(); i++) {
        const Frame& f = a.fr[i]; bool last = i + 1 == a.fr.size();
        size_t end = last ? a.slots.size() : a.fr[i + 1].base;
        const std::vector<bool>* lv = nullptr;
        for (size_t k = f.base; k < end; k++) {
            V x = a.slots[k], y = b.slots[k];
            if (x.c == y.c && x.e == y.e) continue;
            if (!lv) lv = &liveAt(f.fn, f.bb, f.pc);
            int sl = (int)(k - f.base);
            if (!(*lv)[sl]) continue;
            if (fns[f.fn].slotPtr[sl]) return false;
            if (!fns[f.fn].slotW[sl]) return false;
            sd.push_back(k); sdw.push_back(fns[f.fn].slotW[sl]);
        }
    }
    // path conditions
    size_t nv = X.vars.size();
    a.dom.resize(nv); b.dom.resize(nv);
    std::vector<Cons*> la, lb;
    std::unordered_set<Cons*> sa;
    for (Cons* c = a.cons.p; c; c = c->next.p) { la.push_back(c); sa.insert(c); }
    Cons* common = nullptr;
    for (Cons* c = b.cons.p; c; c = c->next.p) { if (sa.count(c)) { common = c; break; } lb.push_back(c); }
    std::vector<const E*> ra, rb, keep;
    std::unordered_set<const E*> eb; for (auto* c : lb) eb.insert(c->e);
    std::unordered_set<const E*> ea;
    for (auto* c : la) { if (c == common) break; if (ea.insert(c->e).second) { if (eb.count(c->e)) keep.push_back(c->e); else ra.push_back(c->e); } }
    { std::unordered_set<const E*> seen; for (auto* c : lb) if (!ea.count(c->e) && seen.insert(c->e).second) rb.push_back(c->e); }
    std::vector<int> dv;
    for (size_t v = 0; v < nv; v++) if (X.vars[v].w == 8 && !X.vars[v].undef && a.dom[v] != b.dom[v]) dv.push_back(v);
    const E* g = nullptr;
    for (int v : dv) if ((a.dom[v] & b.dom[v]).none()) { g = domExpr(v, a.dom[v]); break; }
    bool compl1 = false;
    for (auto* x : ra) { for (auto* y : rb) if (X.lnot(x) == y || X.lnot(y) == x) { compl1 = true; if (!g) g = x; } }
    auto conj = [&](const State& s, const std::vector<const E*>& r) { const E* c = X.constant(1, 1); for (auto* e : r) c = X.bin(O_AND, c, e); for (int v : dv) c = X.bin(O_AND, c, domExpr(v, s.dom[v])); return c; };
    const E *cA = nullptr, *cB = nullptr;
    if (!g) { cA = conj(a, ra); cB = conj(b, rb); g = cA; if (g->op == O_CONST) return false; }
    bool none = (ra.empty() && rb.empty() && dv.size() <= 1) || (compl1 && ra.size() == 1 && rb.size() == 1 && dv.empty());
    const E* add = nullptr;
    if (!none) { if (!cA) { cA = conj(a, ra); cB = conj(b, rb); } add = X.bin(O_OR, cA, cB); }
    // apply
    for (auto& d : diffs) {
        Obj* x = a.mem.getw(d.id); Obj* y = b.mem.get(d.id);
        uint64_t m = std::min<uint64_t>(8, x->size - d.off);
        bool undef = false;
        auto at = [&](Obj* o, uint64_t k) -> const E* { const E* e = o->s.empty() ? nullptr : o->s[k]; if (e == UNDEF) { undef = true; return nullptr; } return e ? e : X.constant(o->b[k], 8); };
        const E *wa = nullptr, *wb = nullptr;
        for (uint64_t k = d.off; k < d.off + m; k++) { at(x, k); at(y, k); }
        auto put = [&](uint64_t k, const E* e) { if (e->op == O_CONST) { x->b[k] = (uint8_t)e->val; if (!x->s.empty()) x->s[k] = nullptr; } else { if (x->s.empty()) x->s.assign(x->size, nullptr); x->s[k] = e; } };
        if (!undef) {
            auto whole = [&](Obj* o) -> const E* {
                const E* f = at(o, d.off);
                if (f->op == O_EXTRACT && f->val == 0 && f->a->w == m * 8) { bool ok = true; for (uint64_t k = 1; k < m && ok; k++) { const E* w = X.extract(f->a, 8 * k, 8); ok = at(o, d.off + k) == w; } if (ok) return f->a; }
                const E* r = f; for (uint64_t k = 1; k < m; k++) r = X.concat(at(o, d.off + k), r); return r; };
            wa = whole(x); wb = whole(y);
            const E* r = X.ite(g, wa, wb);
            for (uint64_t k = 0; k < m; k++) put(d.off + k, X.extract(r, 8 * k, 8));
        } else for (uint64_t k = d.off; k < d.off + m; k++) {
            const E* ex = x->s.empty() ? nullptr : x->s[k]; const E* ey = y->s.empty() ? nullptr : y->s[k];
            if (ex == ey && (ex || x->b[k] == y->b[k])) continue;
            const E* u = nullptr;
            if (ex == UNDEF || ey == UNDEF) { for (size_t i = 0; i < X.vars.size(); i++) if (X.vars[i].undef) u = X.varExpr[i]; if (!u) u = X.newVar("undef!", 8, true); }
            const E* va = ex == UNDEF ? u : ex ? ex : X.constant(x->b[k], 8); const E* vb = ey == UNDEF ? u : ey ? ey : X.constant(y->b[k], 8);
            put(k, X.ite(g, va, vb));
        }
    }
    for (size_t i = 0; i < sd.size(); i++) a.slots[sd[i]] = ev(X.ite(g, toE(a.slots[sd[i]], sdw[i]), toE(b.slots[sd[i]], sdw[i])));
    if (b.mem.n > a.mem.n) { a.mem.n = b.mem.n; if ((a.mem.n - 1) / CH >= a.mem.ch.size()) a.mem.ch.resize((a.mem.n - 1) / CH + 1); }
    a.dom.resize(X.vars.size()); b.dom.resize(X.vars.size());
    for (int v : dv) a.dom[v] |= b.dom[v];
    a.cons = Ref<Cons>(common);
    for (auto* e : keep) a.cons = Ref<Cons>(new Cons(e, a.cons));
    a.ent.reset();
    if (add) addCons(a, add);
    for (Cons* c = a.cons.p; c; c = c->next.p) a.ent |= c->e->sup;
    a.steps = std::max(a.steps, b.steps);
    nMerges++;
    return true;
}

// a path left the open regions for good
static void escapeRegions(const State& s) {
    for (size_t k = 1; k < regs.size(); k++) {
        Region& r = regs[k];
        if (r.dirty) continue;
        const E* c = X.constant(1, 1);
        Cons* q = s.cons.p; int n = 0;
        for (; q && q != r.cons.p && n < 12; q = q->next.p, n++) c = X.bin(O_AND, c, q->e);
        if (q != r.cons.p || r.escaped.size() >= 24) { r.dirty = true; continue; }
        for (size_t v = 0; v < r.dom.size() && v < s.dom.size(); v++) if (X.vars[v].w == 8 && !X.vars[v].undef && s.dom[v] != r.dom[v]) c = X.bin(O_AND, c, domExpr(v, s.dom[v]));
        r.escaped.push_back(c);
    }
}
static void restoreRegion(State& s, const Region& r) {
    if (r.dirty) return;
    s.cons = r.cons;
    s.dom = r.dom; s.dom.resize(X.vars.size());
    s.ent.reset();
    for (auto* c : r.escaped) addCons(s, X.lnot(c));
    for (Cons* c = s.cons.p; c; c = c->next.p) s.ent |= c->e->sup;
}

static void decodeFn(int idx) {
    Fn& fn = fns[idx];
    const Function& F = *fn.F;
    std::unordered_map<const Value*, std::pair<int, std::vector<int>>> slot;  // value -> first slot, leaf widths
    int n = 0;
    auto def = [&](const Value* v) {
        std::vector<std::pair<uint64_t, Type*>> l;
        if (!v->getType()->isVoidTy()) leaves(v->getType(), 0, l);
        std::vector<int> ws; for (auto& p : l) ws.push_back(widthOf(p.second));
        slot[v] = {n, ws}; n += ws.size();
        for (int w : ws) fn.slotW.push_back(std::max(w, 0));
        bool deref = false;
        if (v->getType()->isPointerTy()) {
            std::vector<const Value*> todo{v}; std::set<const Value*> seen{v};
            while (!todo.empty() && !deref) {
                const Value* x = todo.back(); todo.pop_back();
                for (auto* u : x->users()) {
                    if (isa<ICmpInst>(u)) continue;
                    if (isa<PHINode>(u) || isa<SelectInst>(u)) { if (seen.insert(u).second) todo.push_back(u); continue; }
                    deref = true; break;
                }
            }
        }
        for (size_t i = 0; i < ws.size(); i++) fn.slotPtr.push_back(deref);
        return ws;
    };
    for (auto& A : F.args()) { auto ws = def(&A); for (int w : ws) { fn.argSlots.push_back(fn.argSlots.size()); fn.argW.push_back(w); } }
    std::unordered_map<const BasicBlock*, int> bid;
    for (auto& B : F) { int k = bid.size(); bid[&B] = k; for (auto& I : B) def(&I); }
    fn.nslots = n;
    fn.vararg = F.isVarArg();
    fn.bb.resize(bid.size());
    auto opnds = [&](const Value* v, std::vector<Opnd>& out) {
        if (isa<MetadataAsValue>(v)) return;
        if (auto* c = dyn_cast<Constant>(v)) { constLeaves(c, out); return; }
        auto it = slot.find(v);
        if (it == slot.end()) unsup("operand");
        for (size_t i = 0; i < it->second.second.size(); i++) out.push_back(Opnd{it->second.first + (int)i, 0, (uint8_t)std::max(it->second.second[i], 0), false});
    };
    for (auto& B : F) {
        Block& blk = fn.bb[bid[&B]];
        for (auto& I : B) {
            if (auto* phi = dyn_cast<PHINode>(&I)) {
                blk.hasPhi = true;
                for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) {
                    std::vector<Opnd> o; opnds(phi->getIncomingValue(i), o);
                    int p = bid[phi->getIncomingBlock(i)];
                    for (size_t k = 0; k < o.size(); k++) blk.phis[p].push_back({slot[&I].first + (int)k, o[k]});
                }
                continue;
            }
            Insn in; in.opc = I.getOpcode(); in.I = &I;
            auto& sl = slot[&I];
            in.dst = sl.second.empty() ? -1 : sl.first; in.nleaf = sl.second.size();
            if (!sl.second.empty()) in.w = std::max(sl.second[0], 0);
            try {
            switch (I.getOpcode()) {
            case Instruction::Call: case Instruction::Invoke: {
                auto& cb = cast<CallBase>(I);
                if (cb.isInlineAsm()) { if (I.getOpcode() == Instruction::Call) { in.opc = Instruction::Fence; break; } }
                in.callee = cb.getCalledFunction();
                if (!in.callee) if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) in.callee = dyn_cast<Function>(ga->getAliasee());
                for (unsigned i = 0; i < cb.arg_size(); i++) opnds(cb.getArgOperand(i), in.ops);
                if (in.callee) { auto it = fnIdx.find(in.callee); if (it != fnIdx.end()) in.cfn = it->second; }
                else opnds(cb.getCalledOperand(), in.ops);
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.tgt.push_back(bid[iv->getNormalDest()]); in.tgt.push_back(bid[iv->getUnwindDest()]); }
                break; }
            case Instruction::Br: {
                auto& br = cast<BranchInst>(I);
                if (br.isConditional()) opnds(br.getCondition(), in.ops);
                for (unsigned i = 0; i < br.getNumSuccessors(); i++) in.tgt.push_back(bid[br.getSuccessor(i)]);
                break; }
            case Instruction::Switch: {
                auto& sw = cast<SwitchInst>(I);
                opnds(sw.getCondition(), in.ops); in.w = in.ops[0].w ? in.ops[0].w : widthOf(sw.getCondition()->getType());
                in.tgt.push_back(bid[sw.getDefaultDest()]);
                for (auto& c : sw.cases()) { in.aux.push_back((int64_t)c.getCaseValue()->getZExtValue()); in.tgt.push_back(bid[c.getCaseSuccessor()]); }
                break; }
            case Instruction::ICmp: case Instruction::FCmp: in.sub = cast<CmpInst>(I).getPredicate(); in.w2 = widthOf(I.getOperand(0)->getType()); opnds(I.getOperand(0), in.ops); opnds(I.getOperand(1), in.ops); break;
            case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); in.sub = DL->getTypeAllocSize(al.getAllocatedType()); if (!isa<ConstantInt>(al.getArraySize()) || !cast<ConstantInt>(al.getArraySize())->isOne()) opnds(al.getArraySize(), in.ops); break; }
            case Instruction::Load: { opnds(I.getOperand(0), in.ops); std::vector<std::pair<uint64_t, Type*>> l; leaves(I.getType(), 0, l); for (auto& p : l) { in.aux.push_back(p.first); in.aux.push_back(widthOf(p.second)); } break; }
            case Instruction::Store: { opnds(I.getOperand(0), in.ops); std::vector<std::pair<uint64_t, Type*>> l; leaves(I.getOperand(0)->getType(), 0, l); for (auto& p : l) { in.aux.push_back(p.first); in.aux.push_back(widthOf(p.second)); } opnds(I.getOperand(1), in.ops); break; }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(I);
                opnds(g.getPointerOperand(), in.ops); in.aux.push_back(0);
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* ix = gi.getOperand();
                    if (auto* st = gi.getStructTypeOrNull()) { in.aux[0] += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* c = dyn_cast<ConstantInt>(ix)) { in.aux[0] += c->getSExtValue() * sc; continue; }
                    opnds(ix, in.ops); in.aux.push_back(sc);
                }
                break; }
            case Instruction::Select: opnds(I.getOperand(0), in.ops); opnds(I.getOperand(1), in.ops); opnds(I.getOperand(2), in.ops); in.ptr = I.getType()->isPointerTy(); break;
            case Instruction::ExtractValue: {
                auto& x = cast<ExtractValueInst>(I);
                std::vector<Opnd> all; opnds(x.getAggregateOperand(), all);
                Type* t = x.getAggregateOperand()->getType(); int skip = 0;
                for (unsigned ix : x.indices()) { for (unsigned k = 0; k < ix; k++) { std::vector<std::pair<uint64_t, Type*>> l; leaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), 0, l); skip += l.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
                in.sub = sl.second.size();
                for (int k = 0; k < in.sub; k++) in.ops.push_back(all[skip + k]);
                break; }
            case Instruction::InsertValue: {
                auto& x = cast<InsertValueInst>(I);
                opnds(x.getAggregateOperand(), in.ops);
                std::vector<Opnd> v; opnds(x.getInsertedValueOperand(), v);
                Type* t = x.getAggregateOperand()->getType(); int skip = 0;
                for (unsigned ix : x.indices()) { for (unsigned k = 0; k < ix; k++) { std::vector<std::pair<uint64_t, Type*>> l; leaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), 0, l); skip += l.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
                for (size_t k = 0; k < v.size(); k++) in.ops[skip + k] = v[k];
                break; }
            case Instruction::Ret: if (I.getNumOperands()) opnds(I.getOperand(0), in.ops); break;
            case Instruction::LandingPad: {
                auto& lp = cast<LandingPadInst>(I);
                in.sub = lp.isCleanup();
                for (unsigned i = 0; i < lp.getNumClauses(); i++) {
                    if (!lp.isCatch(i)) { in.aux.push_back(-1); continue; }
                    const Value* c = lp.getClause(i)->stripPointerCasts();
                    in.aux.push_back(isa<ConstantPointerNull>(c) ? 0 : (int64_t)gaddr.at(cast<GlobalValue>(c)));
                }
                break; }
            case Instruction::Resume: case Instruction::Unreachable: break;
            default:
                for (auto& o : I.operands()) opnds(o.get(), in.ops);
                if (I.getNumOperands()) in.w2 = std::max(widthOf(I.getOperand(0)->getType()), 0);
            }
            for (int w : sl.second) if (w < 0 && I.getOpcode() != Instruction::LandingPad) unsup("type");
            for (auto& o : in.ops) if (o.w == 0) unsup("operand type");
            } catch (Unsupported& u) { in.opc = 9999; in.ops.clear(); }
            blk.in.push_back(std::move(in));
        }
    }
    postDominators(fn);
}

// ---------------------------------------------------------------- jobs
static State base0;   // after static initialisers
static int runFn = -1, sharedFn = -1, cliFn = -1;

struct Hole { std::string name; int var; std::vector<V> bytes; };
static Z3_ast constNamed(const std::string& n, Z3_sort s) { return Z3_mk_const(ZC, Z3_mk_string_symbol(ZC, n.c_str()), s); }

static std::string hexs(const std::vector<uint8_t>& v) { std::string r; char b[3]; for (auto c : v) { snprintf(b, 3, "%02x", c); r += b; } return r; }

static json::Object runJob(const json::Object& job) {
    double t0 = now();
    X.reset(); qcache.clear(); domMemo.clear(); models.clear(); modelNext = 0; nModelHits = 0;
    Z3_config cfg = Z3_mk_config();
    ZC = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ZC, [](Z3_context c, Z3_error_code e) { throw Unsupported{std::string("z3: ") + Z3_get_error_msg(c, e)}; });
    X.z = ZC;
    nQueries = nCacheHits = nUnary = nMerges = nMergeFail = 0; solverTime = 0;
    qTimeout = (unsigned)job.getInteger("qtimeout").value_or(60000);
    double budget = job.getNumber("budget").value_or(600);
    uint64_t maxPaths = (uint64_t)job.getInteger("max_paths").value_or(10000000);
    uint64_t stepLimit = (uint64_t)job.getInteger("steps").value_or(20000000);
    int maxViol = (int)job.getInteger("max_violations").value_or(1);
    json::Object res; res["id"] = job.getString("id").value_or("").str();
    std::map<std::string, int64_t> kinds;
    std::map<std::string, int64_t> details;
    json::Array viols, unsupp, samples;
    uint64_t paths = 0, checks = 0, steps = 0, okPaths = 0;
    std::string status = "done";
    try {
        // variables
        std::map<std::string, int> vix;
        std::map<std::string, std::vector<V>> holeBytes;
        if (auto* hs = job.getArray("holes")) for (auto& hv : *hs) {
            const json::Object& h = *hv.getAsObject();
            std::string name = h.getString("name")->str();
            if (auto* alts = h.getArray("alts")) {
                std::vector<std::string> av; size_t L = 0;
                for (auto& x : *alts) { av.push_back(fromHex(*x.getAsString())); L = std::max(L, av.back().size()); }
                Dom d; for (size_t i = 0; i < av.size(); i++) d.set(i);
                const E* ve = X.newVar(name, 8, false, &d); (void)ve;
                int v = X.vars.size() - 1; vix[name] = v;
                std::vector<V> bytes;
                for (size_t p = 0; p < L; p++) {
                    std::vector<uint64_t> t(256, ' ');
                    for (size_t i = 0; i < av.size(); i++) t[i] = p < av[i].size() ? (uint8_t)av[i][p] : ' ';
                    bytes.push_back(ev(X.tableExpr(v, t, 8)));
                }
                holeBytes[name] = bytes;
            } else {
                std::string set = fromHex(*h.getString("set"));
                Dom d; for (char c : set) d.set((uint8_t)c);
                const E* ve = X.newVar(name, 8, false, &d); vix[name] = X.vars.size() - 1;
                holeBytes[name] = {ev(ve)};
            }
        }
        floatOf.clear();
        std::string decl;
        for (auto& vi : X.vars) decl += "(declare-const " + vi.name + " (_ BitVec 8))\n";
        if (auto* fs = job.getArray("floats")) for (auto& fv : *fs) { std::string h = fv.getAsString()->str(); X.newVar("fv_" + h, 32, false); floatOf[vix.at(h)] = X.vars.size() - 1; }
        anyFloat = -1; anyFloats.clear(); exactPrint = job.getBoolean("exactprint").value_or(false);
        if (job.getBoolean("anyfloat").value_or(false)) for (int i = 0; i < 64; i++) { X.newVar("ff_" + std::to_string(i), 32, false); if (!i) anyFloat = X.vars.size() - 1; }
        // texts: per run a list of literals (hex) and holes
        std::vector<std::vector<V>> texts;
        bool cli = job.getString("mode").value_or("") == "cli";
        for (auto& rv : *job.getArray("runs")) {
            std::vector<V> t;
            for (auto& p : *rv.getAsArray()) {
                if (auto s = p.getAsString()) { for (char c : fromHex(*s)) t.push_back(cv((uint8_t)c)); }
                else { auto& hb = holeBytes.at(p.getAsObject()->getString("h")->str()); t.insert(t.end(), hb.begin(), hb.end()); }
            }
            texts.push_back(t);
        }
        size_t nruns = cli ? 1 : texts.size();
        int maxw = (int)job.getInteger("maxw").value_or(4);
        int maxe = (int)job.getInteger("maxe").value_or(0);
        int maxo = (int)job.getInteger("maxo").value_or(0);
        // initial constraint and property
        for (auto& fl : floatOf) decl += "(declare-const " + X.vars[fl.second].name + " (_ BitVec 32))\n";
        for (size_t r = 0; r < nruns; r++) {
            std::string R = std::to_string(r);
            decl += "(declare-const ok" + R + " Bool)\n(declare-const ex" + R + " Bool)\n(declare-const msg" + R + " Bool)\n(declare-const code" + R + " (_ BitVec 32))\n(declare-const n" + R + " (_ BitVec 32))\n(declare-const en" + R + " (_ BitVec 32))\n(declare-const on" + R + " (_ BitVec 32))\n(declare-const os" + R + " (_ BitVec 32))\n";
            for (int k = 0; k < maxw; k++) decl += "(declare-const w" + R + "_" + std::to_string(k) + " (_ BitVec 64))\n";
            for (int k = 0; k < maxe; k++) decl += "(declare-const e" + R + "_" + std::to_string(k) + " (_ BitVec 8))\n";
            for (int k = 0; k < maxo; k++) decl += "(declare-const o" + R + "_" + std::to_string(k) + " (_ BitVec 8))\n";
        }
        std::string pre = job.getString("defs").value_or("").str();
        std::string f = decl + pre + "\n(assert (not " + job.getString("prop").value_or("true").str() + "))\n";
        Z3_ast_vector neg = Z3_parse_smtlib2_string(ZC, f.c_str(), 0, nullptr, nullptr, 0, nullptr, nullptr);
        Z3_ast_vector_inc_ref(ZC, neg);
        std::vector<Z3_ast> negv;
        for (unsigned i = 0; i < Z3_ast_vector_size(ZC, neg); i++) negv.push_back(Z3_ast_vector_get(ZC, neg, i));
        // start state
        regs.clear(); regs.emplace_back(); regs[0].depth = 0; regs[0].bb = -1;
        mergeOn = job.getBoolean("merge").value_or(true);
        bool fresh = job.getBoolean("fresh").value_or(false), shared = job.getBoolean("shared").value_or(false);
        auto startRun = [&](State& s, size_t r) {
            if (r > 0 && (fresh || s.outs[r - 1].kind != "ok")) s.mem = base0.mem;   // a new process
            s.fr.clear(); s.slots.clear(); s.steps = 0; s.caught.clear(); s.exPtr = s.exType = 0; s.exSel = 0;
            Exec x{&s};
            if (cli) {
                // argv built from the texts: text 0 is the input file's contents, the rest are arguments
                std::vector<uint64_t> ptrs;
                for (size_t i = 0; i < texts.size(); i++) {
                    uint64_t p = x.alloc(texts[i].size() + 1, 0, true);
                    for (size_t k = 0; k < texts[i].size(); k++) x.store(p + k, texts[i][k], 8);
                    ptrs.push_back(p);
                }
                uint64_t av = x.alloc(8 * (texts.size()), 0, true);
                for (size_t i = 1; i < texts.size(); i++) x.store(av + 8 * (i - 1), cv(ptrs[i]), 64);
                x.pushFrame(cliFn, {cv(ptrs[0]), cv(texts[0].size()), cv(texts.size() - 1), cv(av)}, -1, 0, -1);
            } else {
                uint64_t p = x.alloc(texts[r].size(), 0, true);
                for (size_t k = 0; k < texts[r].size(); k++) x.store(p + k, texts[r][k], 8);
                x.pushFrame(shared ? sharedFn : runFn, {cv(p), cv(texts[r].size())}, -1, 0, -1);
            }
        };
        auto init = std::make_unique<State>(base0);
        init->dom.resize(X.vars.size());
        for (size_t i = 0; i < X.vars.size(); i++) init->dom[i] = X.vars[i].dom;
        startRun(*init, 0);
        for (auto& f : floatOf) { const E* v = X.varExpr[f.second]; addCons(*init, X.bin(O_ULE, X.extract(v, 0, 31), X.constant(0x7f800000, 31))); }
        regs[0].pending.push_back(std::move(init));
        bool usesLen = f.find("(= en") != std::string::npos;
        auto observe = [&](Z3_solver sv, State& s) {
            Z3_sort B = Z3_mk_bool_sort(ZC), b8 = Z3_mk_bv_sort(ZC, 8), b32 = Z3_mk_bv_sort(ZC, 32), b64 = Z3_mk_bv_sort(ZC, 64);
            auto eqc = [&](const std::string& nme, Z3_sort so, Z3_ast val) { Z3_solver_assert(ZC, sv, Z3_mk_eq(ZC, constNamed(nme, so), val)); };
            for (size_t r = 0; r < nruns; r++) {
                std::string R = std::to_string(r);
                bool have = r < s.outs.size();
                RunOut dummy; RunOut& o = have ? s.outs[r] : dummy;
                eqc("ok" + R, B, o.kind == "ok" ? Z3_mk_true(ZC) : Z3_mk_false(ZC));
                eqc("ex" + R, B, o.kind == "exit" ? Z3_mk_true(ZC) : Z3_mk_false(ZC));
                eqc("msg" + R, B, !o.err.empty() ? Z3_mk_true(ZC) : Z3_mk_false(ZC));
                eqc("code" + R, b32, X.zc((uint32_t)o.code, 32));
                eqc("n" + R, b32, X.zc(o.kind == "ok" ? o.words.size() : 0, 32));
                eqc("en" + R, b32, X.zc(o.err.size(), 32));
                eqc("on" + R, b32, X.zc(o.out.size(), 32));
                eqc("os" + R, b32, X.zc(o.outState, 32));
                if (o.kind == "ok") for (int w = 0; w < maxw && w < (int)o.words.size(); w++) eqc("w" + R + "_" + std::to_string(w), b64, X.toBV(toE(o.words[w], 64)));
                for (int w = 0; w < maxe && w < (int)o.err.size(); w++) eqc("e" + R + "_" + std::to_string(w), b8, X.toBV(toE(o.err[w], 8)));
                for (int w = 0; w < maxo && w < (int)o.out.size(); w++) eqc("o" + R + "_" + std::to_string(w), b8, X.toBV(toE(o.out[w], 8)));
            }
        };
        // paths with the same observable result are checked together
        std::map<std::string, States> batch;
        bool fpProp = f.find("fp") != std::string::npos;
        auto checkOne = [&](State& s) {
            std::string k = s.outs.empty() ? "none" : s.outs.back().kind;
            checks++;
            double t = now();
            std::unordered_map<const E*, bool> memo; bool fp = fpProp;
            for (Cons* c = s.cons.p; c && !fp; c = c->next.p) fp |= hasFp(c->e, memo);
            for (auto& o : s.outs) for (auto& w : o.words) if (w.e && !fp) fp |= hasFp(w.e, memo);
            Z3_solver sv = mkSolver(fp);
            for (Cons* c = s.cons.p; c; c = c->next.p) Z3_solver_assert(ZC, sv, X.toBool(c->e));
            for (size_t v = 0; v < X.vars.size(); v++) if (X.vars[v].w == 8 && !X.vars[v].undef) Z3_solver_assert(ZC, sv, domAst(v, s.dom[v]));
            observe(sv, s);
            bool wantSample = samples.size() < 2 && (k == "ok" || ((maxe > 0 || cli) && k == "exit"));
            auto modelTexts = [&](json::Object& v) {
                Z3_model m = Z3_solver_get_model(ZC, sv); Z3_model_inc_ref(ZC, m);
                std::vector<uint64_t> asg(X.vars.size());
                json::Object mo;
                for (size_t q = 0; q < X.vars.size(); q++) {
                    Z3_ast r; Z3_model_eval(ZC, m, X.zvar(q), true, &r);
                    uint64_t val = 0; Z3_get_numeral_uint64(ZC, r, &val); asg[q] = val;
                    mo[X.vars[q].name] = (int64_t)val;
                }
                Z3_model_dec_ref(ZC, m);
                json::Array ta;
                for (auto& t : texts) { std::vector<uint8_t> b; for (auto& x : t) b.push_back(x.e ? X.eval(x.e, asg) : x.c); ta.push_back(hexs(b)); }
                v["model"] = std::move(mo); v["texts"] = std::move(ta);
                json::Array outs;
                for (auto& o : s.outs) { json::Object jo; jo["kind"] = o.kind; jo["detail"] = o.detail; jo["code"] = o.code; json::Array w; for (auto& x : o.words) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)(x.e ? X.eval(x.e, asg) : x.c)); w.push_back(std::string(b)); }
                    jo["words"] = std::move(w); std::vector<uint8_t> eb; for (auto& x : o.err) eb.push_back(x.e ? X.eval(x.e, asg) : x.c); jo["stderr"] = hexs(eb); std::vector<uint8_t> ob; for (auto& x : o.out) ob.push_back(x.e ? X.eval(x.e, asg) : x.c); jo["out"] = hexs(ob); jo["outstate"] = o.outState; outs.push_back(std::move(jo)); }
                v["outs"] = std::move(outs);
            };
            if (wantSample) { if (Z3_solver_check(ZC, sv) == Z3_L_TRUE) { json::Object v; modelTexts(v); samples.push_back(std::move(v)); } nQueries++; }
            for (auto a : negv) Z3_solver_assert(ZC, sv, a);
            double t2 = now();
            Z3_lbool r = Z3_solver_check(ZC, sv);
            if (getenv("VP_TRACE")) { fprintf(stderr, "final %s %.2f\n", k.c_str(), now() - t2); if (now() - t2 > 2) fprintf(stderr, "%s\n", Z3_solver_to_string(ZC, sv)); }
            nQueries++;
            if (r == Z3_L_TRUE) { json::Object v; v["kind"] = k; v["detail"] = s.outs.empty() ? "" : s.outs.back().detail; modelTexts(v); viols.push_back(std::move(v)); }
            Z3_solver_dec_ref(ZC, sv);
            solverTime += now() - t;
            if (r == Z3_L_UNDEF) throw Timeout{};
            return r == Z3_L_TRUE;
        };
        auto flushExits = [&] {
            for (auto& kv : batch) {
                if (kv.second.empty()) continue;
                if (kv.second.size() > 1) {
                    // one query for the disjunction of the path conditions
                    double t = now();
                    Z3_solver sv = mkSolver(true);
                    std::vector<Z3_ast> ors;
                    for (auto& sp : kv.second) {
                        std::vector<Z3_ast> ands;
                        for (Cons* c = sp->cons.p; c; c = c->next.p) ands.push_back(X.toBool(c->e));
                        for (size_t v = 0; v < sp->dom.size(); v++) if (X.vars[v].w == 8 && !X.vars[v].undef && sp->dom[v] != X.vars[v].dom) ands.push_back(domAst(v, sp->dom[v]));
                        ors.push_back(ands.empty() ? Z3_mk_true(ZC) : Z3_mk_and(ZC, ands.size(), ands.data()));
                    }
                    Z3_solver_assert(ZC, sv, Z3_mk_or(ZC, ors.size(), ors.data()));
                    for (size_t v = 0; v < X.vars.size(); v++) if (X.vars[v].w == 8 && !X.vars[v].undef) Z3_solver_assert(ZC, sv, domAst(v, X.vars[v].dom));
                    observe(sv, *kv.second[0]);
                    for (auto a : negv) Z3_solver_assert(ZC, sv, a);
                    Z3_lbool r = Z3_solver_check(ZC, sv);
                    Z3_solver_dec_ref(ZC, sv);
                    solverTime += now() - t; nQueries++;
                    if (r == Z3_L_FALSE) { checks += kv.second.size(); continue; }
                }
                for (auto& sp : kv.second) { checkOne(*sp); if ((int)viols.size() >= maxViol) return; }
            }
            batch.clear();
        };
        auto finish = [&](State& s) {
            // all runs of this path are over: check the property
            paths++;
            std::string k = s.outs.empty() ? "none" : s.outs.back().kind;
            kinds[k]++;
            if (k != "ok" && k != "exit") details[k + ": " + s.outs.back().detail]++;
            if (k == "ok") okPaths++;
            bool plain = maxe == 0 && maxo == 0 && !cli;
            std::string key;
            for (auto& o : s.outs) { if (o.kind != "exit") plain = false; key += o.kind + "," + std::to_string(o.code) + "," + std::to_string(o.outState) + "," + (o.err.empty() ? "0" : "1") + "," + std::to_string(usesLen ? o.err.size() : 0) + "," + std::to_string(o.out.size()) + ";"; }
            if (!plain) { checkOne(s); return; }
            auto c = std::make_unique<State>(); c->dom = s.dom; c->cons = s.cons; c->outs = s.outs; c->dom.resize(X.vars.size());
            auto& v = batch[key]; v.push_back(std::move(c));
            if (v.size() >= 64) { flushExits(); }
        };
        for (;;) {
            if (regs.back().pending.empty()) {
                if (regs.size() == 1) break;
                // the region is over: merge what reached its end
                Region reg = std::move(regs.back());
                States arr = std::move(reg.arrived), out;
                regs.pop_back();
                for (auto& st : arr) {
                    bool merged = false;
                    int tries = 0;
                    for (size_t i = out.size(); i-- > 0 && tries < 48 && !merged; tries++) merged = tryMerge(*out[i], *st);
                    if (!merged) out.push_back(std::move(st));
                }
                // a merge may make further ones possible
                for (size_t i = out.size(); i-- > 1;) if (tryMerge(*out[i - 1], *out[i])) out.erase(out.begin() + i);
                nMergeFail += out.size() - 1;
                if (out.size() == 1 && arr.size() > 1) restoreRegion(*out[0], reg);
                for (auto& st : out) regs.back().pending.push_back(std::move(st));
                continue;
            }
            std::unique_ptr<State> st = std::move(regs.back().pending.back()); regs.back().pending.pop_back();
            if (st->dom.size() < X.vars.size()) st->dom.resize(X.vars.size());
            Exec x{st.get(), stepLimit};
            if (x.atEnd()) { regs.back().arrived.push_back(std::move(st)); continue; }
            bool again = true;
            while (again) {
                again = false;
                uint64_t s0 = st->steps;
                try { if (x.run()) { steps += st->steps - s0; regs.back().arrived.push_back(std::move(st)); goto next; } }
                catch (PathEnd&) {}
                catch (Crash& c) {
                    x.curOut();
                    std::string d = c.what;
                    if (!st->fr.empty()) d += " in " + demangle(fns[st->fr.back().fn].name);
                    x.endRun(c.kind, d);
                }
                catch (Unsupported& u) {
                    std::string d = u.what; if (!st->fr.empty()) d += " in " + demangle(fns[st->fr.back().fn].name);
                    steps += st->steps - s0;
                    escapeRegions(*st);
                    if (feasible(*st)) { if (unsupp.size() < 5) unsupp.push_back(d); status = "unsupported"; }
                    goto next; }
                steps += st->steps - s0;
                escapeRegions(*st);
                if (st->outs.size() < nruns && (st->outs.back().kind == "ok" || st->outs.back().kind == "exit")) {
                    startRun(*st, st->outs.size());
                    regs[0].pending.push_back(std::move(st)); goto next;
                }
                finish(*st);
            }
            next:
            if ((int)viols.size() >= maxViol) { status = "violated"; break; }
            if (paths > maxPaths) { status = "paths"; break; }
            if (now() - t0 > budget) { status = "timeout"; break; }
        }
        if ((int)viols.size() < maxViol) flushExits();
    } catch (Timeout&) { status = "solver-timeout"; }
    catch (Unsupported& u) { status = "unsupported"; unsupp.push_back(u.what); }
    if (!viols.empty()) status = "violated";
    if (traceForks) for (auto& k : forkSites) if (k.second > 20) fprintf(stderr, "%6d %s\n", k.second, k.first.c_str());
    res["status"] = status; res["paths"] = (int64_t)paths; res["ok_paths"] = (int64_t)okPaths; res["checks"] = (int64_t)checks; res["steps"] = (int64_t)steps;
    res["queries"] = (int64_t)nQueries; res["cache_hits"] = (int64_t)nCacheHits; res["unary"] = (int64_t)nUnary; res["model_hits"] = (int64_t)nModelHits; res["merges"] = (int64_t)nMerges; res["unmerged"] = (int64_t)nMergeFail; res["solver_s"] = solverTime; res["wall_s"] = now() - t0;
    json::Object ko; for (auto& k : kinds) ko[k.first] = k.second; res["kinds"] = std::move(ko);
    json::Object dd; for (auto& k : details) dd[k.first] = k.second; res["details"] = std::move(dd);
    res["violations"] = std::move(viols); res["unsupported"] = std::move(unsupp); res["samples"] = std::move(samples);
    Z3_del_context(ZC);
    return res;
}

int main(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: symex module.bc\n"); return 2; }
    LLVMContext C; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if (!M) { err.print("symex", errs()); return 2; }
    DL = &M->getDataLayout();
    {
        Z3_config cfg = Z3_mk_config(); ZC = Z3_mk_context(cfg); X.z = ZC; Z3_del_config(cfg);
    }
    // addresses
    for (auto& F : *M) { gaddr[&F] = FNBASE + (fnByAddr.size() << 4); fnByAddr.push_back(&F); if (!F.isDeclaration()) { Fn fn; fn.F = &F; fn.name = F.getName().str(); fnIdx[&F] = fns.size(); fns.push_back(fn); } }
    std::vector<std::pair<GlobalVariable*, uint32_t>> gv;
    for (auto& G : M->globals()) {
        Obj* o = new Obj; o->size = G.hasInitializer() || !G.getValueType()->isSized() ? (G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8) : std::max<uint64_t>(DL->getTypeAllocSize(G.getValueType()), 8);
        o->b.assign(o->size, 0);
        uint32_t id = base0.mem.add(Ref<Obj>(o)); gaddr[&G] = baseOf(id); gv.push_back({&G, id});
    }
    for (auto& g : gv) { if (g.first->hasInitializer()) { Obj* o = base0.mem.getw(g.second); try { constBytes(g.first->getInitializer(), o->b, 0); } catch (Unsupported& u) { } o->ro = g.first->isConstant(); } }
    for (size_t i = 0; i < fns.size(); i++) decodeFn(i);
    for (size_t i = 0; i < fns.size(); i++) { if (fns[i].name == "vp_run") runFn = i; if (fns[i].name == "vp_run_shared") sharedFn = i; if (fns[i].name == "vp_cli") cliFn = i; }
    // static initialisers
    try {
        if (auto* ctors = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(ctors->getInitializer())) {
            std::vector<std::pair<uint64_t, const Function*>> cs;
            for (auto& o : arr->operands()) { auto* s = cast<ConstantStruct>(o.get()); cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), dyn_cast<Function>(s->getOperand(1))}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : cs) if (c.second) {
                regs.clear(); regs.emplace_back(); regs[0].depth = 0; regs[0].bb = -1;
                Exec x{&base0};
                x.pushFrame(fnIdx.at(c.second), {}, -1, 0, -1);
                try { x.run(); } catch (PathEnd&) {}
                base0.outs.clear(); base0.fr.clear(); base0.slots.clear(); base0.steps = 0;
            }
        }
    } catch (Crash& c) { fprintf(stderr, "static initialiser: %s %s\n", c.kind.c_str(), c.what.c_str()); return 3; }
    catch (Unsupported& u) { fprintf(stderr, "static initialiser: unsupported %s\n", u.what.c_str()); return 3; }
    for (auto& f : fns) f.touched = false;
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        auto v = json::parse(line);
        if (!v) { fprintf(stderr, "bad json\n"); return 2; }
        json::Object r = runJob(*v->getAsObject());
        std::string s; raw_string_ostream os(s); os << json::Value(std::move(r)); os.flush();
        fputs(s.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
    }
    json::Object fin; json::Array fa;
    for (auto& f : fns) if (f.touched) fa.push_back(f.name);
    fin["functions"] = std::move(fa);
    std::string s; raw_string_ostream os(s); os << json::Value(std::move(fin)); os.flush();
    fputs(s.c_str(), stdout); fputc('\n', stdout);
    return 0;
}
