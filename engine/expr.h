// Hash-consed bit-vector expressions over small symbolic variables.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

constexpr int MAXV = 256;  // variables per job
using Sup = std::bitset<MAXV>;
using Dom = std::bitset<256>;

enum Op : uint8_t {
    O_CONST, O_VAR, O_TABLE,  // TABLE: function of one 8-bit variable given by its table
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,  // CONCAT(a high, b low); EXTRACT val=lo
    O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC, O_FPTOSI, O_FPTOUI,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FCMP,      // FCMP val = LLVM predicate
};

struct Expr {
    Op op;
    uint8_t w;        // width in bits, 1..64
    uint8_t undef;    // depends on an uninitialised value
    int16_t uvar;     // the only (8-bit) variable it depends on, or -1
    uint64_t val;     // const value / var index / lo bit / predicate
    const Expr *a, *b, *c;
    uint32_t id;
    uint64_t kz, ko;  // known-zero, known-one bits
    Sup sup;
    mutable uint64_t* tab = nullptr;   // 256 entries, for unary expressions
    mutable Z3_ast zbv = nullptr, zbool = nullptr;
};

struct VarInfo {
    std::string name;
    uint8_t w;
    bool undef;
    Dom dom;  // initial domain, 8-bit variables only
};

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprMgr {
    std::deque<Expr> arena;
    struct Key { Op op; uint8_t w; uint64_t val; const Expr *a, *b, *c;
        bool operator==(const Key& o) const { return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c; } };
    struct KH { size_t operator()(const Key& k) const {
        uint64_t h = k.op * 0x9E3779B97F4A7C15ULL + k.w * 1315423911u + k.val * 0xff51afd7ed558ccdULL;
        h ^= ((uint64_t)k.a >> 4) * 0xc4ceb9fe1a85ec53ULL; h = (h << 13) | (h >> 51);
        h ^= ((uint64_t)k.b >> 4) * 0x9ddfea08eb382d69ULL; h = (h << 17) | (h >> 47);
        h ^= ((uint64_t)k.c >> 4) * 0x87c37b91114253d5ULL; return h ^ (h >> 29); } };
    std::unordered_map<Key, const Expr*, KH> cons;
    std::vector<VarInfo> vars;
    std::vector<const Expr*> varExpr;
    std::deque<std::array<uint64_t, 256>> tabs;
    Z3_context z = nullptr;

    std::unordered_map<std::string, const Expr*> canon;

    void reset() { arena.clear(); canon.clear(); cons.clear(); vars.clear(); varExpr.clear(); tabs.clear(); tabMemo.clear(); }

    static uint64_t evalFp(const Expr* e, uint64_t a, uint64_t b) {
        auto gf = [](uint64_t v) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; };
        auto gd = [](uint64_t v) { double d; memcpy(&d, &v, 8); return d; };
        auto pf = [](float f) { uint32_t u; memcpy(&u, &f, 4); return (uint64_t)u; };
        auto pd = [](double d) { uint64_t u; memcpy(&u, &d, 8); return u; };
        int aw = e->a->w;
        switch (e->op) {
        case O_SITOFP: return e->w == 32 ? pf((float)sx(a, aw)) : pd((double)sx(a, aw));
        case O_UITOFP: return e->w == 32 ? pf((float)a) : pd((double)a);
        case O_FPEXT: return pd((double)gf(a));
        case O_FPTRUNC: return pf((float)gd(a));
        case O_FPTOSI: return (uint64_t)(aw == 32 ? (int64_t)gf(a) : (int64_t)gd(a)) & maskw(e->w);
        case O_FPTOUI: return (aw == 32 ? (uint64_t)gf(a) : (uint64_t)gd(a)) & maskw(e->w);
        case O_FADD: return aw == 32 ? pf(gf(a) + gf(b)) : pd(gd(a) + gd(b));
        case O_FSUB: return aw == 32 ? pf(gf(a) - gf(b)) : pd(gd(a) - gd(b));
        case O_FMUL: return aw == 32 ? pf(gf(a) * gf(b)) : pd(gd(a) * gd(b));
        case O_FDIV: return aw == 32 ? pf(gf(a) / gf(b)) : pd(gd(a) / gd(b));
        case O_FCMP: {
            double x = aw == 32 ? gf(a) : gd(a), y = aw == 32 ? gf(b) : gd(b);
            bool un = std::isnan(x) || std::isnan(y);
            bool r = false;
            int p = (int)e->val;  // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
            if (un) r = p & 8;
            else r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
            return r;
        }
        default: abort();
        }
    }

    static uint64_t evalOp(const Expr* e, uint64_t a, uint64_t b, uint64_t c) {
        const uint64_t m = maskw(e->w);
        const int aw = e->a ? e->a->w : 0;
        switch (e->op) {
        case O_ADD: return (a + b) & m;
        case O_SUB: return (a - b) & m;
        case O_MUL: return (a * b) & m;
        case O_UDIV: return b ? a / b : m;
        case O_SDIV: { int64_t x = sx(a, aw), y = sx(b, aw); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case O_UREM: return b ? a % b : a;
        case O_SREM: { int64_t x = sx(a, aw), y = sx(b, aw); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case O_AND: return a & b;
        case O_OR: return a | b;
        case O_XOR: return a ^ b;
        case O_SHL: return b >= e->w ? 0 : (a << b) & m;
        case O_LSHR: return b >= e->w ? 0 : a >> b;
        case O_ASHR: return (uint64_t)(sx(a, aw) >> (b >= e->w ? e->w - 1 : b)) & m;
        case O_EQ: return a == b;
        case O_ULT: return a < b;
        case O_ULE: return a <= b;
        case O_SLT: return sx(a, aw) < sx(b, aw);
        case O_SLE: return sx(a, aw) <= sx(b, aw);
        case O_ITE: return a ? b : c;
        case O_ZEXT: return a;
        case O_SEXT: return (uint64_t)sx(a, aw) & m;
        case O_EXTRACT: return (a >> e->val) & m;
        case O_CONCAT: return (a << e->b->w) | b;
        default: return evalFp(e, a, b);
        }
    }

    const uint64_t* table(const Expr* e) {
        if (e->tab) return e->tab;
        tabs.emplace_back();
        uint64_t* t = tabs.back().data();
        memset(t, 0, 2048);
        if (e->op == O_VAR) { for (int i = 0; i < 256; i++) t[i] = i; e->tab = t; return t; }
        auto get = [&](const Expr* x) -> const uint64_t* { return !x || x->op == O_CONST ? nullptr : table(x); };
        const uint64_t *ta = get(e->a), *tb = get(e->b), *tc = get(e->c);
        const Dom& d = vars[e->uvar].dom;
        for (int i = 0; i < 256; i++) {
            if (!d[i]) continue;
            t[i] = evalOp(e, ta ? ta[i] : e->a ? e->a->val : 0, tb ? tb[i] : e->b ? e->b->val : 0, tc ? tc[i] : e->c ? e->c->val : 0);
        }
        e->tab = t;
        return t;
    }

    const Expr* intern(Op op, int w, uint64_t val, const Expr* a = nullptr, const Expr* b = nullptr, const Expr* c = nullptr) {
        Key k{op, (uint8_t)w, val, a, b, c};
        auto it = cons.find(k);
        if (it != cons.end()) return it->second;
        arena.emplace_back();
        Expr& e = arena.back();
        e.op = op; e.w = w; e.val = val; e.a = a; e.b = b; e.c = c; e.id = arena.size();
        e.undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
        e.kz = e.ko = 0;
        const uint64_t m = maskw(w);
        if (op == O_CONST) { e.kz = ~val & m; e.ko = val; e.uvar = -1; }
        else if (op == O_VAR) {
            e.sup.set(val); e.undef = vars[val].undef;
            e.uvar = w == 8 && !e.undef ? (int)val : -1;
        } else {
            for (const Expr* x : {a, b, c}) if (x) e.sup |= x->sup;
            e.uvar = -1;
            if (e.sup.count() == 1) { int v = e.sup._Find_first(); if (vars[v].w == 8 && !vars[v].undef) e.uvar = v; }
        }
        const Expr* res = &e;
        if (op != O_CONST) {
            if (e.uvar >= 0) {
                const uint64_t* t = table(&e);
                const Dom& d = vars[e.uvar].dom;
                uint64_t o = 0, n = m;
                for (int i = 0; i < 256; i++) if (d[i]) { o |= t[i]; n &= t[i]; }
                e.kz = ~o & m; e.ko = n & m;
                // the variable itself in disguise?
                const Expr* v = varExpr.size() > (size_t)e.uvar ? varExpr[e.uvar] : nullptr;
                if (v && v->op == O_VAR && op != O_VAR && !((op == O_ZEXT || op == O_EXTRACT) && a == v)) {
                    bool idt = true;
                    for (int i = 0; i < 256 && idt; i++) if (d[i] && t[i] != (uint64_t)i) idt = false;
                    if (idt) { const Expr* r = w == 8 ? v : w > 8 ? intern(O_ZEXT, w, 0, v) : intern(O_EXTRACT, w, 0, v); cons[k] = r; return r; }
                    // one node per function of the variable
                    std::string key((const char*)&e.uvar, 2); key.push_back((char)w);
                    for (int i = 0; i < 256; i++) if (d[i]) key.append((const char*)&t[i], 8);
                    auto [ci, fresh] = canon.emplace(std::move(key), &e);
                    if (!fresh) { cons[k] = ci->second; return ci->second; }
                }
            } else knownBits(e);
            if ((e.kz | e.ko) == m) res = constant(e.ko, w);
        }
        cons[k] = res;
        return res;
    }

    void knownBits(Expr& e) {
        const uint64_t m = maskw(e.w);
        const Expr *a = e.a, *b = e.b;
        switch (e.op) {
        case O_AND: e.kz = a->kz | b->kz; e.ko = a->ko & b->ko; break;
        case O_OR: e.kz = a->kz & b->kz; e.ko = a->ko | b->ko; break;
        case O_XOR: e.kz = (a->kz & b->kz) | (a->ko & b->ko); e.ko = (a->kz & b->ko) | (a->ko & b->kz); break;
        case O_SHL: if (b->op == O_CONST && b->val < e.w) { e.kz = ((a->kz << b->val) | ((1ULL << b->val) - 1)) & m; e.ko = (a->ko << b->val) & m; } break;
        case O_LSHR: if (b->op == O_CONST && b->val < e.w) { e.kz = ((a->kz >> b->val) | ~(m >> b->val)) & m; e.ko = a->ko >> b->val; } break;
        case O_ZEXT: e.kz = (a->kz | ~maskw(a->w)) & m; e.ko = a->ko; break;
        case O_SEXT: {
            uint64_t hi = m & ~maskw(a->w), s = 1ULL << (a->w - 1);
            e.kz = a->kz | (a->kz & s ? hi : 0); e.ko = a->ko | (a->ko & s ? hi : 0); break; }
        case O_EXTRACT: e.kz = (a->kz >> e.val) & m; e.ko = (a->ko >> e.val) & m; break;
        case O_CONCAT: e.kz = (a->kz << b->w) | b->kz; e.ko = (a->ko << b->w) | b->ko; break;
        case O_ITE: e.kz = e.b->kz & e.c->kz; e.ko = e.b->ko & e.c->ko; break;
        case O_ADD: {
            uint64_t am = ~a->kz & maskw(a->w), bm = ~b->kz & maskw(b->w);
            unsigned __int128 s = (unsigned __int128)am + bm;
            if (s <= m) { uint64_t x = (uint64_t)s; int n = x ? 64 - __builtin_clzll(x) : 0; e.kz = m & ~maskw(n ? n : 1); if (!n) e.kz = m; }
            uint64_t tz = a->kz & b->kz; int t = __builtin_ctzll(~tz); if (t > 0) e.kz |= maskw(std::min<int>(t, e.w));
            break; }
        case O_MUL: {
            uint64_t am = ~a->kz & m, bm = ~b->kz & m;
            unsigned __int128 s = (unsigned __int128)am * bm;
            if (s <= m) { uint64_t x = (uint64_t)s; int n = x ? 64 - __builtin_clzll(x) : 0; e.kz = n >= 64 ? 0 : m & ~maskw(n); if (!n) e.kz = m; }
            break; }
        case O_EQ: if ((a->kz & b->ko) || (a->ko & b->kz)) e.kz = 1; break;
        case O_ULT: { uint64_t amx = ~a->kz & maskw(a->w), amn = a->ko, bmx = ~b->kz & maskw(b->w), bmn = b->ko;
            if (amx < bmn) e.ko = 1; else if (amn >= bmx) e.kz = 1; break; }
        case O_ULE: { uint64_t amx = ~a->kz & maskw(a->w), amn = a->ko, bmx = ~b->kz & maskw(b->w), bmn = b->ko;
            if (amx <= bmn) e.ko = 1; else if (amn > bmx) e.kz = 1; break; }
        case O_SLT: case O_SLE: {
            uint64_t s = 1ULL << (a->w - 1);
            if ((a->kz & s) && (b->kz & s)) {
                uint64_t amx = ~a->kz & maskw(a->w), amn = a->ko, bmx = ~b->kz & maskw(b->w), bmn = b->ko;
                bool le = e.op == O_SLE;
                if (le ? amx <= bmn : amx < bmn) e.ko = 1; else if (le ? amn > bmx : amn >= bmx) e.kz = 1;
            } else if ((a->ko & s) && (b->kz & s)) e.ko = 1;
            else if ((a->kz & s) && (b->ko & s)) e.kz = 1;
            break; }
        default: break;
        }
        e.kz &= m; e.ko &= m;
    }

    const Expr* constant(uint64_t v, int w) { return intern(O_CONST, w, v & maskw(w)); }

    const Expr* newVar(const std::string& name, int w, bool undef, const Dom* d = nullptr) {
        assert(vars.size() < MAXV);
        VarInfo vi; vi.name = name; vi.w = w; vi.undef = undef;
        if (d) vi.dom = *d; else vi.dom.set();
        vars.push_back(vi);
        const Expr* e = intern(O_VAR, w, vars.size() - 1);
        // a one-value domain folds to a constant
        varExpr.push_back(e);
        return e;
    }

    std::unordered_map<std::string, const Expr*> tabMemo;
    // the function of one variable given by its values on the variable's domain
    const Expr* tableExpr(int var, const std::vector<uint64_t>& values, int w) {
        const Dom& d = vars[var].dom;
        std::string key((const char*)&var, 4); key.push_back((char)w);
        uint64_t o = 0, n = maskw(w); bool idt = w == 8;
        for (int i = 0; i < 256; i++) if (d[i]) { key.append((const char*)&values[i], 8); o |= values[i]; n &= values[i]; idt &= values[i] == (uint64_t)i; }
        if ((~o | n) == ~0ULL || o == n) return constant(n, w);
        if (idt) return varExpr[var];
        auto it = tabMemo.find(key);
        if (it != tabMemo.end()) return it->second;
        static uint64_t uniq = 1;
        arena.emplace_back();
        Expr& e = arena.back();
        e.op = O_TABLE; e.w = w; e.val = uniq++; e.a = varExpr[var]; e.b = e.c = nullptr; e.id = arena.size();
        e.undef = 0; e.uvar = var; e.sup.set(var);
        tabs.emplace_back(); uint64_t* t = tabs.back().data(); memset(t, 0, 2048);
        for (int i = 0; i < 256; i++) if (d[i]) t[i] = values[i];
        e.tab = t; e.kz = ~o & maskw(w); e.ko = n;
        return tabMemo[key] = &e;
    }

    const Expr* bin(Op op, const Expr* a, const Expr* b) {
        int w = (op >= O_EQ && op <= O_SLE) ? 1 : a->w;
        assert(a->w == b->w);
        const uint64_t m = maskw(a->w);
        if (a->op == O_CONST && b->op == O_CONST) { Expr t; t.op = op; t.w = w; t.a = a; t.b = b; t.val = 0; return constant(evalOp(&t, a->val, b->val, 0), w); }
        bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
        if (comm && (a->op == O_CONST || (b->op != O_CONST && a->id > b->id))) std::swap(a, b);
        if (b->op == O_CONST) {
            uint64_t v = b->val;
            switch (op) {
            case O_ADD: case O_SUB: case O_SHL: case O_LSHR: case O_ASHR: if (!v) return a; break;
            case O_OR: if (!v) return a; if (v == m) return b; if ((a->ko & v) == v) return a; break;
            case O_XOR: if (!v) return a; break;
            case O_AND: if (!v) return b; if (v == m) return a; if ((a->kz | v) == m) return a; break;
            case O_MUL: if (!v) return b; if (v == 1) return a; break;
            case O_UDIV: if (v == 1) return a; break;
            case O_EQ:
                if (a->w == 1) return v ? a : lnot(a);
                if (a->op == O_ZEXT) { if (v > maskw(a->a->w)) return constant(0, 1); return bin(O_EQ, a->a, constant(v, a->a->w)); }
                if (a->op == O_ITE && a->b->op == O_CONST && a->c->op == O_CONST) {
                    bool t = a->b->val == v, f = a->c->val == v;
                    if (t && f) return constant(1, 1); if (t) return a->a; if (f) return lnot(a->a); return constant(0, 1);
                }
                break;
            default: break;
            }
            if (op == O_OR && a->op == O_OR && a->b->op == O_CONST) return bin(O_OR, a->a, constant(a->b->val | v, w));
            if (op == O_AND && a->op == O_AND && a->b->op == O_CONST) return bin(O_AND, a->a, constant(a->b->val & v, w));
            if (op == O_XOR && a->op == O_XOR && a->b->op == O_CONST) return bin(O_XOR, a->a, constant(a->b->val ^ v, w));
            if (op == O_ADD && a->op == O_ADD && a->b->op == O_CONST) return bin(O_ADD, a->a, constant(a->b->val + v, w));
            if (op == O_SUB) return bin(O_ADD, a, constant(0 - v, w));
        }
        if ((op == O_OR || op == O_AND) && b->op != O_CONST) {
            if (w == 1 && (isNot(a, b) || isNot(b, a))) return constant(op == O_OR, 1);
            // keep constants outermost
            if (a->op == op && a->b->op == O_CONST) return bin(op, bin(op, a->a, b), a->b);
            if (b->op == op && b->b->op == O_CONST) return bin(op, bin(op, a, b->a), b->b);
        }
        if (a == b) switch (op) {
            case O_SUB: case O_XOR: return constant(0, w);
            case O_AND: case O_OR: return a;
            case O_EQ: case O_ULE: case O_SLE: return constant(1, 1);
            case O_ULT: case O_SLT: return constant(0, 1);
            default: break;
        }
        return intern(op, w, 0, a, b);
    }
    static bool isNot(const Expr* a, const Expr* b) { return a->op == O_XOR && a->w == 1 && a->b->op == O_CONST && a->a == b; }
    const Expr* lnot(const Expr* a) {
        if (a->op == O_CONST) return constant(!a->val, 1);
        if (a->op == O_XOR && a->b->op == O_CONST && a->b->val == 1) return a->a;
        return intern(O_XOR, 1, 0, a, constant(1, 1));
    }
    const Expr* ite(const Expr* c, const Expr* t, const Expr* f) {
        if (c->op == O_CONST) return c->val ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (t->op == O_CONST && f->op == O_CONST) return t->val ? c : lnot(c);
            if (t->op == O_CONST) return t->val ? bin(O_OR, c, f) : bin(O_AND, lnot(c), f);
            if (f->op == O_CONST) return f->val ? bin(O_OR, lnot(c), t) : bin(O_AND, c, t);
        }
        if (t->w > 1) {
            // ite(c, x|k, x|m) = x | ite(c, k, m)
            auto split = [](const Expr* e, const Expr*& x) -> uint64_t { if (e->op == O_OR && e->b->op == O_CONST) { x = e->a; return e->b->val; } x = e; return 0; };
            const Expr *xt, *xf; uint64_t kt = split(t, xt), kf = split(f, xf);
            if (xt == xf && xt->op != O_CONST) return bin(O_OR, xt, ite(c, constant(kt, t->w), constant(kf, t->w)));
            auto two = [&](const Expr* big, const Expr* small, bool neg) -> const Expr* {
                // big = small | y
                if (big->op == O_OR && big->b->op != O_CONST) {
                    const Expr* y = big->a == small ? big->b : big->b == small ? big->a : nullptr;
                    if (y) return bin(O_OR, small, neg ? ite(c, constant(0, y->w), y) : ite(c, y, constant(0, y->w)));
                }
                return nullptr; };
            if (auto* r = two(t, f, false)) return r;
            if (auto* r = two(f, t, true)) return r;
        }
        return intern(O_ITE, t->w, 0, c, t, f);
    }
    const Expr* zext(const Expr* a, int w) {
        if (a->w == w) return a;
        if (a->op == O_CONST) return constant(a->val, w);
        if (a->op == O_ZEXT) return zext(a->a, w);
        return intern(O_ZEXT, w, 0, a);
    }
    const Expr* sext(const Expr* a, int w) {
        if (a->w == w) return a;
        if (a->op == O_CONST) return constant((uint64_t)sx(a->val, a->w), w);
        if (a->kz >> (a->w - 1) & 1) return zext(a, w);
        return intern(O_SEXT, w, 0, a);
    }
    const Expr* extract(const Expr* a, int lo, int w) {
        if (lo == 0 && w == a->w) return a;
        if (a->op == O_CONST) return constant(a->val >> lo, w);
        uint64_t m = maskw(w);
        if ((((a->kz | a->ko) >> lo) & m) == m) return constant(a->ko >> lo, w);
        if (a->op == O_EXTRACT) return extract(a->a, lo + (int)a->val, w);
        if (a->op == O_ZEXT || a->op == O_SEXT) {
            if (lo + w <= a->a->w) return extract(a->a, lo, w);
            if (a->op == O_ZEXT) { if (lo >= a->a->w) return constant(0, w); if (lo == 0) return zext(a->a, w); }
        }
        if (a->op == O_CONCAT) {
            int bw = a->b->w;
            if (lo + w <= bw) return extract(a->b, lo, w);
            if (lo >= bw) return extract(a->a, lo - bw, w);
        }
        return intern(O_EXTRACT, w, lo, a);
    }
    const Expr* concat(const Expr* hi, const Expr* lo) {
        int w = hi->w + lo->w;
        if (hi->op == O_CONST && lo->op == O_CONST) return constant((hi->val << lo->w) | lo->val, w);
        if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return extract(hi->a, lo->val, w);
        if (hi->op == O_EXTRACT && hi->a == lo && hi->val == lo->w) return extract(lo, 0, w);
        if (hi->op == O_CONST && hi->val == 0) return zext(lo, w);
        return intern(O_CONCAT, w, 0, hi, lo);
    }
    const Expr* un(Op op, const Expr* a, int w) {
        if (a->op == O_CONST) { Expr t; t.op = op; t.w = w; t.a = a; t.val = 0; return constant(evalOp(&t, a->val, 0, 0), w); }
        return intern(op, w, 0, a);
    }
    const Expr* fbin(Op op, const Expr* a, const Expr* b, int pred = 0) {
        int w = op == O_FCMP ? 1 : a->w;
        if (a->op == O_CONST && b->op == O_CONST) { Expr t; t.op = op; t.w = w; t.a = a; t.b = b; t.val = pred; return constant(evalOp(&t, a->val, b->val, 0), w); }
        return intern(op, w, pred, a, b);
    }

    // evaluation under an assignment (one value per variable)
    uint64_t eval(const Expr* e, const std::vector<uint64_t>& asg) {
        std::unordered_map<const Expr*, uint64_t> memo;
        return evalR(e, asg, memo);
    }
    uint64_t evalR(const Expr* e, const std::vector<uint64_t>& asg, std::unordered_map<const Expr*, uint64_t>& memo) {
        if (e->op == O_CONST) return e->val;
        if (e->op == O_VAR) return asg[e->val];
        if (e->op == O_TABLE) return e->tab[asg[e->uvar]];
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        uint64_t a = e->a ? evalR(e->a, asg, memo) : 0, b = e->b ? evalR(e->b, asg, memo) : 0, c = e->c ? evalR(e->c, asg, memo) : 0;
        return memo[e] = evalOp(e, a, b, c);
    }

    // ---- translation to Z3 ----
    Z3_ast zc(uint64_t v, int w) { return Z3_mk_unsigned_int64(z, v, Z3_mk_bv_sort(z, w)); }
    Z3_ast zvar(int v) { return Z3_mk_const(z, Z3_mk_string_symbol(z, vars[v].name.c_str()), Z3_mk_bv_sort(z, vars[v].w)); }
    Z3_ast toBool(const Expr* e) {
        assert(e->w == 1);
        if (e->zbool) return e->zbool;
        Z3_ast r;
        Z3_ast args[2];
        if (e->uvar >= 0 && e->op != O_CONST) {
            // membership of the variable in a set, as few intervals as the domain allows
            const uint64_t* t = table(e); const Dom& d = vars[e->uvar].dom; Z3_ast v = zvar(e->uvar);
            auto build = [&](uint64_t want) {
                std::vector<Z3_ast> o; bool first = true;
                for (int i = 0; i < 256;) {
                    if (!d[i] || t[i] != want) { if (d[i]) first = false; i++; continue; }
                    int j = i, k = i; while (k + 1 < 256 && (!d[k + 1] || t[k + 1] == want)) { k++; if (d[k]) j = k; }
                    if (i == j) o.push_back(Z3_mk_eq(z, v, zc(i, 8)));
                    else if (first) o.push_back(Z3_mk_bvule(z, v, zc(j, 8)));
                    else if (k == 255) o.push_back(Z3_mk_bvuge(z, v, zc(i, 8)));
                    else { Z3_ast a[2] = {Z3_mk_bvuge(z, v, zc(i, 8)), Z3_mk_bvule(z, v, zc(j, 8))}; o.push_back(Z3_mk_and(z, 2, a)); }
                    i = k + 1; first = false;
                }
                return o; };
            auto yes = build(1), no = build(0);
            if (yes.size() <= no.size()) r = yes.empty() ? Z3_mk_false(z) : yes.size() == 1 ? yes[0] : Z3_mk_or(z, yes.size(), yes.data());
            else r = Z3_mk_not(z, no.size() == 1 ? no[0] : Z3_mk_or(z, no.size(), no.data()));
            Z3_inc_ref(z, r);
            e->zbool = r;
            return r;
        }
        switch (e->op) {
        case O_CONST: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
        case O_AND: args[0] = toBool(e->a); args[1] = toBool(e->b); r = Z3_mk_and(z, 2, args); break;
        case O_OR: args[0] = toBool(e->a); args[1] = toBool(e->b); r = Z3_mk_or(z, 2, args); break;
        case O_XOR:
            if (e->b->op == O_CONST) r = Z3_mk_not(z, toBool(e->a));
            else r = Z3_mk_xor(z, toBool(e->a), toBool(e->b));
            break;
        case O_EQ: r = Z3_mk_eq(z, toBV(e->a), toBV(e->b)); break;
        case O_ULT: r = Z3_mk_bvult(z, toBV(e->a), toBV(e->b)); break;
        case O_ULE: r = Z3_mk_bvule(z, toBV(e->a), toBV(e->b)); break;
        case O_SLT: r = Z3_mk_bvslt(z, toBV(e->a), toBV(e->b)); break;
        case O_SLE: r = Z3_mk_bvsle(z, toBV(e->a), toBV(e->b)); break;
        case O_ITE: r = Z3_mk_ite(z, toBool(e->a), toBool(e->b), toBool(e->c)); break;
        case O_FCMP: {
            Z3_ast x = tofp(e->a), y = tofp(e->b);
            Z3_ast nan[2] = {Z3_mk_fpa_is_nan(z, x), Z3_mk_fpa_is_nan(z, y)};
            Z3_ast un = Z3_mk_or(z, 2, nan);
            std::vector<Z3_ast> o;
            if (e->val & 1) o.push_back(Z3_mk_fpa_eq(z, x, y));
            if (e->val & 2) o.push_back(Z3_mk_fpa_gt(z, x, y));
            if (e->val & 4) o.push_back(Z3_mk_fpa_lt(z, x, y));
            if (e->val & 8) o.push_back(un);
            r = o.empty() ? Z3_mk_false(z) : Z3_mk_or(z, o.size(), o.data());
            break; }
        default: r = Z3_mk_eq(z, toBV(e), zc(1, 1));
        }
        Z3_inc_ref(z, r);
        e->zbool = r;
        return r;
    }
    Z3_sort fpsort(int w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : Z3_mk_fpa_sort_64(z); }
    Z3_ast tofp(const Expr* e) { return Z3_mk_fpa_to_fp_bv(z, toBV(e), fpsort(e->w)); }
    Z3_ast toBV(const Expr* e) {
        if (e->zbv) return e->zbv;
        Z3_ast r = nullptr;
        if (e->w == 1 && e->uvar >= 0) { r = Z3_mk_ite(z, toBool(e), zc(1, 1), zc(0, 1)); Z3_inc_ref(z, r); e->zbv = r; return r; }
        if (e->w >= 8 && e->uvar >= 0 && e->op != O_VAR && e->op != O_CONST) {
            // index plus a constant
            const uint64_t* t = table(e); const Dom& d = vars[e->uvar].dom;
            int f = d._Find_first();
            uint64_t c = t[f] - f; bool aff = true;
            for (int i = f; i < 256 && aff; i = d._Find_next(i)) aff = t[i] - i == c;
            if (aff && c + 256 <= maskw(e->w)) {
                int l = 255; while (!d[l]) l--;
                if (l + c <= 255 || e->w == 8) { r = zvar(e->uvar); if (c) r = Z3_mk_bvadd(z, r, zc(c & 255, 8)); if (e->w > 8) r = Z3_mk_zero_ext(z, e->w - 8, r); }
                else { r = Z3_mk_zero_ext(z, e->w - 8, zvar(e->uvar)); if (c) r = Z3_mk_bvadd(z, r, zc(c, e->w)); }
                Z3_inc_ref(z, r); e->zbv = r; return r;
            }
        }
        switch (e->op) {
        case O_CONST: r = zc(e->val, e->w); break;
        case O_VAR: r = zvar(e->val); break;
        case O_TABLE: {
            Z3_ast v = zvar(e->uvar);
            r = zc(0, e->w); bool first = true;
            for (int i = 255; i >= 0; i--) if (vars[e->uvar].dom[i]) {
                if (first) { r = zc(e->tab[i], e->w); first = false; }
                else r = Z3_mk_ite(z, Z3_mk_eq(z, v, zc(i, 8)), zc(e->tab[i], e->w), r);
            }
            break; }
        case O_ADD: r = Z3_mk_bvadd(z, toBV(e->a), toBV(e->b)); break;
        case O_SUB: r = Z3_mk_bvsub(z, toBV(e->a), toBV(e->b)); break;
        case O_MUL: r = Z3_mk_bvmul(z, toBV(e->a), toBV(e->b)); break;
        case O_UDIV: r = Z3_mk_bvudiv(z, toBV(e->a), toBV(e->b)); break;
        case O_SDIV: r = Z3_mk_bvsdiv(z, toBV(e->a), toBV(e->b)); break;
        case O_UREM: r = Z3_mk_bvurem(z, toBV(e->a), toBV(e->b)); break;
        case O_SREM: r = Z3_mk_bvsrem(z, toBV(e->a), toBV(e->b)); break;
        case O_AND: if (e->w == 1) goto asbool; r = Z3_mk_bvand(z, toBV(e->a), toBV(e->b)); break;
        case O_OR: if (e->w == 1) goto asbool; r = Z3_mk_bvor(z, toBV(e->a), toBV(e->b)); break;
        case O_XOR: if (e->w == 1) goto asbool; r = Z3_mk_bvxor(z, toBV(e->a), toBV(e->b)); break;
        case O_SHL: r = Z3_mk_bvshl(z, toBV(e->a), toBV(e->b)); break;
        case O_LSHR: r = Z3_mk_bvlshr(z, toBV(e->a), toBV(e->b)); break;
        case O_ASHR: r = Z3_mk_bvashr(z, toBV(e->a), toBV(e->b)); break;
        case O_ITE: if (e->w == 1) goto asbool; r = Z3_mk_ite(z, toBool(e->a), toBV(e->b), toBV(e->c)); break;
        case O_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, toBV(e->a)); break;
        case O_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, toBV(e->a)); break;
        case O_EXTRACT: r = Z3_mk_extract(z, e->val + e->w - 1, e->val, toBV(e->a)); break;
        case O_CONCAT: r = Z3_mk_concat(z, toBV(e->a), toBV(e->b)); break;
        case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, Z3_mk_fpa_rne(z), toBV(e->a), fpsort(e->w))); break;
        case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, Z3_mk_fpa_rne(z), toBV(e->a), fpsort(e->w))); break;
        case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), tofp(e->a), fpsort(e->w))); break;
        case O_FPTOSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), tofp(e->a), e->w); break;
        case O_FPTOUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), tofp(e->a), e->w); break;
        case O_FADD: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, Z3_mk_fpa_rne(z), tofp(e->a), tofp(e->b))); break;
        case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, Z3_mk_fpa_rne(z), tofp(e->a), tofp(e->b))); break;
        case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, Z3_mk_fpa_rne(z), tofp(e->a), tofp(e->b))); break;
        case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, Z3_mk_fpa_rne(z), tofp(e->a), tofp(e->b))); break;
        default: asbool: r = Z3_mk_ite(z, toBool(e), zc(1, 1), zc(0, 1));
        }
        Z3_inc_ref(z, r);
        e->zbv = r;
        return r;
    }
};
