/* Harness of P21: the flow analyses, SSA construction, live ranges, coalescing and register assignment on small functions whose control flow
   (jump kinds and targets) or whose operands are symbolic. The oracles below work on single instructions, straight from the definitions. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wcc.h"
#include "sx.h"
#ifndef NB
#define NB 4
#endif
#define MI 40
#define MV 5
enum { K_NOP, K_DEF, K_CPY, K_ADD, K_USE, K_JMP, K_JZ, K_JNZ, K_RET };
static struct ins { int k, d, a, b, t, lab; Tac *tac; } I[MI]; static int n;
static int succ[MI][2], ns[MI];
static Function *F;
static Value *vr(int x) { Value *r = new_value(); r->type = new_type(TYPE_LONG); r->vreg = x; return r; }
static Value *cst(int x) { return new_integral_constant(TYPE_LONG, x); }
static Value *lv(int x) { Value *r = new_value(); r->label = x; return r; }
static void add(int lab, int k, int d, int a, int b) { struct ins *i = &I[n++]; i->k = k; i->d = d; i->a = a; i->b = b; i->lab = lab; }
static void jump(int lab, int k, int a, int t) { add(lab, k, 0, a, 0); I[n - 1].t = t; }
/* What an instruction defines and uses */
static int def(int i) { return I[i].k == K_DEF || I[i].k == K_CPY || I[i].k == K_ADD ? I[i].d : 0; }
static int uses(int i, int v) { int k = I[i].k; if (k == K_CPY || k == K_USE || k == K_JZ || k == K_JNZ) return I[i].a == v; if (k == K_RET) return I[i].a == v; if (k == K_ADD) return I[i].a == v || I[i].b == v; return 0; }
static int at(int lab) { int i; for (i = 0; i < n; i++) if (I[i].lab == lab) return i; sx_assert(0, "harness: label"); return 0; }
static void finish(void) {
    int i; Tac *last = 0;
    F = new_function(); F->type = new_type(TYPE_FUNCTION); F->type->function = wcalloc(1, sizeof(FunctionType)); F->type->target = new_type(TYPE_INT);
    for (i = 0; i < n; i++) {
        struct ins *x = &I[i]; Tac *t; int op = IR_NOP;
        switch (x->k) { case K_DEF: case K_CPY: op = IR_MOVE; break; case K_ADD: case K_USE: op = IR_ADD; break; case K_JMP: op = IR_JMP; break; case K_JZ: op = IR_JZ; break; case K_JNZ: op = IR_JNZ; break; case K_RET: op = IR_RETURN; break; }
        t = new_instruction(op); x->tac = t; t->label = x->lab; t->prev = last; if (last) last->next = t; else F->ir = t; last = t;
        if (def(i)) t->dst = vr(x->d);
        if (x->k == K_DEF) t->src1 = cst(i);
        if (x->k == K_CPY || x->k == K_ADD || x->k == K_USE || ((x->k == K_JZ || x->k == K_JNZ || x->k == K_RET) && x->a)) t->src1 = vr(x->a);
        else if (x->k == K_JZ || x->k == K_JNZ) t->src1 = cst(1);
        if (x->k == K_ADD) t->src2 = vr(x->b);
        if (x->k == K_USE) t->src2 = cst(1);
        if (x->k == K_JMP) t->src1 = lv(x->t);
        if (x->k == K_JZ || x->k == K_JNZ) t->src2 = lv(x->t);
        ns[i] = 0;
        if (x->k == K_JMP || x->k == K_JZ || x->k == K_JNZ) succ[i][ns[i]++] = at(x->t);
        if (x->k != K_JMP && x->k != K_RET && i + 1 < n) succ[i][ns[i]++] = i + 1;
    }
}
static void reach(int from, int without, char *seen) { int k; if (from == without || seen[from]) return; seen[from] = 1; for (k = 0; k < ns[from]; k++) reach(succ[from][k], without, seen); }
static char R[MI], RW[MI][MI];    /* reachable; reachable when an instruction is taken away */
static int dom(int a, int b) { return a == b || !RW[a][b]; }
static void start(void) { init_memory_management_for_translation_unit(); opt_enable_live_range_coalescing = 1; opt_short_lr_infinite_spill_costs = 1; opt_optimize_arithmetic_operations = 0; live_range_reserved_pregs_offset = 0; n = 0; }

/* ---------------------------------------------------------------- blocks and dominance */
static int blk_of(int i, int nb) { int b, r = -1; for (b = 0; b < nb; b++) if (F->blocks[b].start->index <= i && i <= F->blocks[b].end->index) { sx_assert(r < 0, "an instruction is in one block"); r = b; } return r; }
static void check_dom(int all_reachable) {
    int i, j, k, nb = F->cfg->node_count, B[MI], S[MI], e[MI], lead[MI];
    for (i = 0; i < n; i++) sx_assert(I[i].tac->index == i, "instructions are numbered");
    memset(R, 0, n); reach(0, -1, R);
    for (i = 0; i < n; i++) { lead[i] = i == 0 || I[i].lab; if (i && (I[i - 1].k == K_JZ || I[i - 1].k == K_JNZ)) lead[i] = 1; B[i] = blk_of(i, nb); sx_assert(B[i] >= 0, "an instruction is in a block"); }
    for (i = 1; i < n; i++) sx_assert((B[i] != B[i - 1]) == lead[i], "blocks start at labels and after conditional jumps");
    for (k = 0; k < nb; k++) { S[k] = F->blocks[k].start->index; e[k] = F->blocks[k].end->index; while (e[k] > S[k] && I[e[k] - 1].k == K_JMP) e[k]--; }
    for (k = 0; k < nb; k++) {    /* edges */
        int end = e[k], want = 0, got = 0; GraphEdge *g;
        for (i = S[k]; i <= e[k]; i++) if (I[i].k == K_JMP) { end = i; break; }
        for (j = 0; j < ns[end]; j++) want |= 1 << B[succ[end][j]];
        for (g = F->cfg->nodes[k].succ; g; g = g->next_succ) { sx_assert(g->from->id == k, "edge"); got |= 1 << g->to->id; }
        sx_assert(want == got, "the control flow graph has exactly the edges of the function");
        got = 0; want = 0; for (g = F->cfg->nodes[k].pred; g; g = g->next_pred) { sx_assert(g->to->id == k, "edge"); got |= 1 << g->from->id; }
        for (j = 0; j < nb; j++) for (g = F->cfg->nodes[j].succ; g; g = g->next_succ) if (g->to->id == k) want |= 1 << j;
        sx_assert(want == got, "predecessors mirror successors");
    }
    for (i = 0; i < n; i++) if (all_reachable) all_reachable = R[i] || !lead[i] ; 
    for (j = 0; j < nb; j++) { memset(RW[S[j]], 0, n); reach(0, S[j], RW[S[j]]); }
    for (k = 0; k < nb; k++) if (R[S[k]]) {
        int id = -1, df = 0, got = 0;
        for (j = 0; j < nb; j++) if (R[S[j]]) {
            int d = dom(S[j], S[k]);
            if (all_reachable) sx_assert(in_set(F->dominance[k], j) == d, "dominators");
            if (d && j != k && (id < 0 || dom(S[id], S[j]))) id = j;
        }
        sx_assert(F->idom[k] == id, "immediate dominator");
        for (j = 0; j < nb; j++) if (R[S[j]] && !(dom(S[k], S[j]) && j != k)) { GraphEdge *g; for (g = F->cfg->nodes[j].pred; g; g = g->next_pred) if (R[S[g->from->id]] && dom(S[k], S[g->from->id])) df |= 1 << j; }
        for (j = 0; j < nb; j++) if (in_set(F->dominance_frontiers[k], j)) got |= 1 << j;
        sx_assert(df == got, "dominance frontier");
    }
    else sx_assert(F->idom[k] == -1, "an unreachable block has no immediate dominator");
}

/* ---------------------------------------------------------------- liveness */
static char L[MI][MV];
static int used_after(int i, int v, char *seen) { int k; for (k = 0; k < ns[i]; k++) { int s = succ[i][k]; if (seen[s]) continue; seen[s] = 1; if (uses(s, v)) return 1; if (def(s) != v && used_after(s, v, seen)) return 1; } return 0; }
static void check_live(void) {
    int k, v, i, nb = F->cfg->node_count;
    make_uevar_and_varkill(F); make_liveout(F);
    for (k = 0; k < nb; k++) for (v = 1; v < MV; v++) {
        int s = F->blocks[k].start->index, e = F->blocks[k].end->index, u = 0, kill = 0; char seen[MI];
        for (i = s; i <= e; i++) { if (uses(i, v) && !kill) u = 1; if (def(i) == v) kill = 1; if (I[i].k == K_JMP) { e = i; break; } }
        sx_assert(longset_in(F->uevar[k], v) == u, "upward exposed variables"); sx_assert(longset_in(F->varkill[k], v) == kill, "killed variables");
        memset(seen, 0, n); sx_assert(longset_in(F->liveout[k], v) == used_after(e, v, seen), "live out: used on some path before it is redefined");
    }
}

/* ---------------------------------------------------------------- SSA and live ranges */
static void ssa(void) { make_globals_and_var_blocks(F); insert_phi_functions(F); free_globals_and_var_blocks(F); rename_phi_function_variables(F); }
static void rdefs(int i, int v, char *seen, char *out) { int p, k; for (p = 0; p < n; p++) if (R[p]) for (k = 0; k < ns[p]; k++) if (succ[p][k] == i && !seen[p]) { seen[p] = 1; if (def(p) == v) out[p] = 1; else rdefs(p, v, seen, out); } }
static void check_ssa(void) {    /* before phis are removed: names are assigned once, and every use names what reaches it */
    int nm = 0, names[2 * MI][2], i, j; Tac *t;
    for (t = F->ir; t; t = t->next) if (t->dst && t->dst->vreg && t->dst->ssa_subscript != -1) { for (j = 0; j < nm; j++) sx_assert(!(names[j][0] == t->dst->vreg && names[j][1] == t->dst->ssa_subscript), "an SSA name is assigned once"); names[nm][0] = t->dst->vreg; names[nm++][1] = t->dst->ssa_subscript; }
    (void) i;
}
static int lr_def(int i) { return I[i].tac->dst->live_range; }
static void check_lr(void) {
    int i, j, v, w; char seen[MI], out[MI];
    for (i = 0; i < n; i++) if (R[i]) {
        for (w = 0; w < 2; w++) {
            Value *x = w ? I[i].tac->src2 : I[i].tac->src1; if (!x || !x->vreg) continue; v = x->vreg;
            memset(seen, 0, n); memset(out, 0, n); rdefs(i, v, seen, out);
            for (j = 0; j < n; j++) if (out[j]) sx_assert(lr_def(j) == x->live_range, "a use is in the live range of every definition that reaches it");
        }
        for (j = 0; j < n; j++) if (R[j] && def(i) && def(j) && def(i) != def(j)) sx_assert(lr_def(i) != lr_def(j), "different variables have different live ranges");
    }
}

/* ---------------------------------------------------------------- behaviour: traces of the values that are used */
#define ML 100
static long tr[2][64]; static int ntr[2];
static long opv(long x, long y) { return x && y ? x * 31 + y * 7 + 1 : 0; }    /* 0: depends on something undefined */
static void run_model(unsigned dec) {
    long st[MV]; int i = 0, steps = 0, nd = 0; memset(st, 0, sizeof st); ntr[0] = 0;
    while (i < n && steps++ < 24) {
        struct ins *x = &I[i];
        switch (x->k) {
            case K_DEF: st[x->d] = i + 100; break;
            case K_CPY: st[x->d] = st[x->a]; break;
            case K_ADD: st[x->d] = opv(st[x->a], st[x->b]); break;
            case K_USE: tr[0][ntr[0]++] = st[x->a]; break;
            case K_RET: if (x->a) tr[0][ntr[0]++] = st[x->a]; return;
            case K_JMP: i = at(x->t); continue;
            case K_JZ: case K_JNZ: if (x->a) tr[0][ntr[0]++] = st[x->a]; if (nd >= 5) return; if (dec >> nd++ & 1) { i = at(x->t); continue; } break;
        }
        i++;
    }
}
static int loc(Value *v, int regs) { int p; if (!regs) return v->vreg; p = F->vreg_locations[v->vreg].preg; if (F->vreg_locations[v->vreg].stack_index) return 40 - F->vreg_locations[v->vreg].stack_index; sx_assert(p >= 0 && p < 16, "a variable has a register or a stack slot"); return p; }
static void run_real(unsigned dec, int regs) {
    long st[ML]; Tac *t = F->ir, *u; int steps = 0, nd = 0, to; memset(st, 0, sizeof st); ntr[1] = 0;
#define GET(v) (st[loc(v, regs)])
    while (t && steps++ < 60 && ntr[1] < ntr[0]) {
        to = 0;
        switch (t->operation) {
            case IR_NOP: break;
            case IR_MOVE: { long x = t->src1->is_constant ? t->src1->int_value + 100 : GET(t->src1); GET(t->dst) = x; break; }
            case IR_ADD: { long x = GET(t->src1); if (t->dst) GET(t->dst) = opv(x, GET(t->src2)); else tr[1][ntr[1]++] = x; break; }
            case IR_RETURN: if (t->src1) tr[1][ntr[1]++] = GET(t->src1); return;
            case IR_JMP: to = t->src1->label; break;
            case IR_JZ: case IR_JNZ: if (!t->src1->is_constant) tr[1][ntr[1]++] = GET(t->src1); if (nd >= 5) return; if (dec >> nd++ & 1) to = t->src2->label; break;
            default: sx_assert(0, "an instruction of an unexpected kind appeared");
        }
        if (to) { for (u = F->ir; u && u->label != to; u = u->next); sx_assert(u != 0, "jumps lead somewhere"); t = u; } else t = t->next;
    }
}
static void same(int regs, const char *msg) {
    unsigned d; int i;
    for (d = 0; d < 32; d++) { run_model(d); run_real(d, regs); for (i = 0; i < ntr[0]; i++) if (tr[0][i]) { sx_assert(ntr[1] > i, msg); sx_assert(tr[1][i] == tr[0][i], msg); } }
}
static void pipeline(int regs) {
    analyze_dominance(F); memset(R, 0, n); reach(0, -1, R);
    ssa(); check_ssa();
    make_live_ranges(F); check_lr(); blast_vregs_with_live_ranges(F); same(0, "coming out of SSA keeps every value");
    coalesce_live_ranges(F, 1); same(0, "coalescing keeps every value");
    if (!regs) return;
    free_interference_graph(F); make_interference_graph(F, 1, 0); init_vreg_locations(F); allocate_registers_top_down(F, 1, regs, PC_INT);
    same(1, "register assignment keeps every value");
}

/* ---------------------------------------------------------------- shapes */
/* Control flow: each block but the last ends in nothing, return, a jump or a conditional jump to an arbitrary block; body(k) fills block k. */
static int term[NB], targ[NB], lab0[NB];
static void shape(int kinds) {
    int k, j; for (k = 0; k < NB; k++) { term[k] = kinds == 1 ? (k == NB - 1 ? K_RET : K_JZ) : kinds == 2 ? (k == NB - 1 ? K_JMP : K_JZ) : sx_choose(4); if (kinds == 0) { static const int m[4] = { K_NOP, K_RET, K_JMP, K_JZ }; term[k] = m[term[k]]; } if (k == NB - 1 && term[k] == K_NOP) term[k] = K_RET; if (k == NB - 1 && term[k] == K_JZ) term[k] = K_JMP;
        targ[k] = 0; if (term[k] == K_JMP || term[k] == K_JZ) { long t = sx_sym("target", k, 8); sx_assume(t >= 1 && t < NB); targ[k] = sx_concretize(t); } }
    for (k = 1; k < NB; k++) { lab0[k] = 1; if (term[k - 1] == K_JZ) { lab0[k] = 0; for (j = 0; j < NB; j++) if (targ[j] == k) lab0[k] = 1; } }
}
static void blocks(int body, int dead) {
    int k, one = 0; if (body == 5) one = 1 + sx_choose(NB - 1); add(0, K_NOP, 0, 0, 0);
    for (k = 0; k < NB; k++) {
        int first = n, v = k % 3 + 1, w = (k + 1) % 3 + 1, x = (k + 2) % 3 + 1, u = v;
        switch (body) {
            case 0: add(0, K_NOP, 0, 0, 0); u = 0; break;
            case 1: if (!k) { add(0, K_DEF, 1, 0, 0); add(0, K_DEF, 2, 0, 0); add(0, K_DEF, 3, 0, 0); } else { add(0, K_USE, 0, v, 0); add(0, K_DEF, v, 0, 0); } break;
            case 2: if (!k) { add(0, K_DEF, 1, 0, 0); add(0, K_DEF, 2, 0, 0); add(0, K_DEF, 3, 0, 0); } else { add(0, K_CPY, v, w, 0); add(0, K_CPY, w, x, 0); } u = w; break;
            case 3: if (!k) { add(0, K_DEF, 1, 0, 0); add(0, K_DEF, 2, 0, 0); } else { add(0, K_ADD, v, w, x); add(0, K_CPY, w, v, 0); add(0, K_USE, 0, 2, 0); } break;
            case 5: if (!k) add(0, K_DEF, 1, 0, 0); else { add(0, K_USE, 0, 1, 0); if (k == one) add(0, K_DEF, 1, 0, 0); } u = 0; break;
            case 4: if (k == 1) add(0, K_DEF, 1, 0, 0); if (k == 2) add(0, K_CPY, 2, 1, 0); add(0, K_USE, 0, k & 1 ? 2 : 1, 0); if (k == NB - 1) add(0, K_DEF, 1, 0, 0); u = 0; break;
        }
        if (k && lab0[k]) I[first].lab = k;
        if (term[k] == K_JMP) { jump(0, K_JMP, 0, targ[k]); if (dead) { add(0, K_USE, 0, 3, 0); add(0, K_DEF, 3, 0, 0); I[n - 1].k = I[n - 2].k = K_NOP; } }
        if (term[k] == K_JZ) jump(0, k & 1 ? K_JZ : K_JNZ, u, targ[k]);
        if (term[k] == K_RET) add(0, K_RET, 0, u, 0);
    }
    finish();
    if (dead) { int i; for (i = 0; i + 2 < n; i++) if (I[i].k == K_JMP && I[i + 1].k == K_NOP && I[i + 2].k == K_NOP && !I[i + 1].lab && !I[i + 2].lab) { I[i + 1].tac->operation = IR_ADD; I[i + 1].tac->src1 = vr(3); I[i + 1].tac->src2 = cst(1); I[i + 2].tac->operation = IR_MOVE; I[i + 2].tac->dst = vr(3); I[i + 2].tac->src1 = cst(2); } }
}
#define CFG(name, kinds, body, dead, what) void h_##name(void) { start(); shape(kinds); blocks(body, dead); what; sx_cover(#name); }
CFG(dom, 0, 0, 0, analyze_dominance(F); check_dom(1))
CFG(dom_dense, 1, 0, 0, analyze_dominance(F); check_dom(1))
CFG(dom_dead, 0, 1, 1, analyze_dominance(F); check_dom(0))
CFG(live1, 0, 1, 1, analyze_dominance(F); check_live())
CFG(live2, 1, 3, 0, analyze_dominance(F); check_live())
CFG(live3, 1, 4, 0, analyze_dominance(F); check_live())
CFG(ssa1, 0, 1, 1, pipeline(0))
CFG(ssa2, 0, 2, 0, pipeline(2))
CFG(ssa3, 1, 3, 0, pipeline(2))
CFG(ssa5, 1, 5, 0, pipeline(1))
CFG(ssa7, 0, 5, 0, pipeline(1))
CFG(ssa6, 2, 5, 0, pipeline(1))
CFG(ssa4, 1, 4, 0, pipeline(1))

/* Operands: fixed control flow, arbitrary variables in the instructions */
static int sv(int i, int nv) { long x = sx_sym("var", i, 8); sx_assume(x >= 1 && x <= nv); return sx_concretize(x); }
#ifndef NV
#define NV 2
#endif
#ifndef NS
#define NS 4
#endif
static void any(int lab, int s) {    /* one arbitrary instruction */
    if (s >= NS) { add(lab, K_USE, 0, 1, 0); return; }
    int k = sx_choose(3), a = sv(2 * s, NV);
    if (k == 0) add(lab, K_DEF, a, 0, 0);
    if (k == 1) { int b = sv(2 * s + 1, NV); if (a == b) add(lab, K_NOP, 0, 0, 0); else add(lab, K_CPY, a, b, 0); }
    if (k == 2) add(lab, K_USE, 0, a, 0);
}
static void begin(void) { int i; start(); add(0, K_NOP, 0, 0, 0); for (i = 1; i <= NV; i++) add(0, K_DEF, i, 0, 0); }
static void done(const char *what) { int i; for (i = 1; i <= NV; i++) add(0, K_USE, 0, i, 0); add(0, K_RET, 0, 0, 0); finish(); analyze_dominance(F); check_live(); pipeline(2); sx_cover(what); }
/* pipeline() analyses again: the first analysis is only for check_live() */
void h_diamond(void) { begin(); jump(0, K_JZ, 0, 1); any(0, 0); any(0, 1); jump(0, K_JMP, 0, 2); any(1, 2); any(0, 3); any(2, 4); done("diamond"); }
void h_loop(void) { begin(); any(1, 0); any(0, 1); jump(0, K_JZ, 0, 2); any(0, 2); any(0, 3); jump(0, K_JMP, 0, 1); any(2, 4); done("loop"); }
void h_inloop(void) { begin(); any(1, 0); jump(0, K_JZ, 0, 2); any(0, 1); any(0, 2); jump(0, K_JZ, 0, 3); any(2, 3); any(3, 4); jump(0, K_JNZ, 0, 1); done("inloop"); }
void h_irreducible(void) { begin(); jump(0, K_JZ, 0, 2); any(1, 0); any(0, 1); any(2, 2); any(0, 3); jump(0, K_JZ, 0, 1); any(0, 4); done("irreducible"); }
void h_selfloop(void) { begin(); any(1, 0); any(0, 1); any(0, 2); jump(0, K_JNZ, 0, 1); any(2, 3); any(0, 4); jump(0, K_JNZ, 0, 2); done("selfloop"); }
void h_swap(void) { start(); add(0, K_NOP, 0, 0, 0); add(0, K_DEF, 1, 0, 0); add(0, K_DEF, 2, 0, 0); add(0, K_DEF, 3, 0, 0); { int i; for (i = 0; i < 3; i++) { int a = sv(2 * i, 3), b = sv(2 * i + 1, 3); add(i ? 0 : 1, a == b ? K_NOP : K_CPY, a, b, 0); } } jump(0, K_JNZ, 1, 1); { int a = sv(10, 3), b = sv(11, 3); if (a != b) add(0, K_ADD, a, b, 6 - a - b); } add(0, K_USE, 0, 1, 0); add(0, K_USE, 0, 2, 0); add(0, K_USE, 0, 3, 0); add(0, K_RET, 0, 0, 0); finish(); pipeline(2); sx_cover("swap"); }

/* ---------------------------------------------------------------- colouring of an arbitrary interference graph */
#ifndef NC
#define NC 4
#endif
void h_colour(void) {
    int i, j, regs, e[NC + 1][NC + 1]; char *ig; VregLocation *vl;
    start(); F = new_function(); F->ir = new_instruction(IR_NOP); F->vreg_count = NC;
    F->interference_graph = ig = wcalloc((NC + 1) * (NC + 1), sizeof(int)); F->spill_cost = wcalloc(NC + 1, sizeof(int)); F->vreg_preg_classes = wcalloc(NC + 1, 1); F->preferred_live_range_preg_indexes = wcalloc(NC + 1, 1);
    for (i = 1; i <= NC; i++) { F->vreg_preg_classes[i] = PC_INT; F->spill_cost[i] = sx_sym("cost", i, 8); for (j = 1; j < i; j++) { e[i][j] = sx_choose(2); if (e[i][j]) { ig_lookup(ig, NC, i, j) = 1; } } }
    regs = sx_choose(NC); init_vreg_locations(F); allocate_registers_top_down(F, 1, regs, PC_INT); vl = F->vreg_locations;
    for (i = 1; i <= NC; i++) {
        sx_assert((vl[i].preg == -1) == (vl[i].stack_index != 0), "a variable gets a register or a stack slot"); sx_assert(vl[i].preg < regs, "only available registers are assigned"); sx_assert(vl[i].stack_index <= 0, "spill slots are local");
        for (j = 1; j < i; j++) { if (e[i][j] && vl[i].preg != -1) sx_assert(vl[i].preg != vl[j].preg, "interfering variables get different registers"); if (vl[i].stack_index) sx_assert(vl[i].stack_index != vl[j].stack_index, "spilled variables get different slots"); }
    }
    sx_assert(F->stack_register_count >= 0, "slots"); for (i = 1; i <= NC; i++) sx_assert(-vl[i].stack_index <= F->stack_register_count, "slots are counted"); sx_cover("colour");
}
